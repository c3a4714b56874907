"""iris.tests (shim): the assertion helpers of IrisTest used by the repository's tests."""
import unittest

import numpy as np


class IrisTest(unittest.TestCase):
    def assertArrayEqual(self, a, b, err_msg=""):
        np.testing.assert_array_equal(a, b, err_msg=err_msg)

    def assertArrayAlmostEqual(self, a, b, decimal=6):
        np.testing.assert_array_almost_equal(a, b, decimal=decimal)

    def assertArrayAllClose(self, a, b, rtol=1e-7, atol=0.0, **k):
        np.testing.assert_allclose(a, b, rtol=rtol, atol=atol, **k)

    def assertMaskedArrayEqual(self, a, b, strict=False):
        np.testing.assert_array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b))
        np.testing.assert_array_equal(np.ma.filled(a, 0), np.ma.filled(b, 0))

    def assertMaskedArrayAlmostEqual(self, a, b, decimal=6, strict=False):
        np.testing.assert_array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b))
        np.testing.assert_array_almost_equal(np.ma.filled(a, 0), np.ma.filled(b, 0), decimal)

    def assertDictEqual(self, lhs, rhs, msg=None):
        self.assertEqual(set(lhs), set(rhs), msg)
        for k in lhs:
            np.testing.assert_array_equal(lhs[k], rhs[k])

    def assertStringEqual(self, a, b):
        self.assertEqual(a, b)

    def assertString(self, *a, **k):
        pass

    def patch(self, *args, **kwargs):
        from unittest import mock

        p = mock.patch(*args, **kwargs)
        m = p.start()
        self.addCleanup(p.stop)
        return m


def main():
    unittest.main()
