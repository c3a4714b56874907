"""cartopy (shim)."""
