class LensModelExtensions(object):
    def __init__(self, lensModel):
        self._lensModel = lensModel
