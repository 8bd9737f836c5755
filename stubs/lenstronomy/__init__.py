"""A small stand-in for the parts of lenstronomy that pyHalo imports.

lenstronomy itself is not installed in this sandbox.  The density profiles are
written from their published formulae; projections that have long closed forms
in lenstronomy are done by quadrature of the same 3D density."""
__version__ = 'standin'
