class Gaussian(object):
    profile_name = 'GAUSSIAN'
    def __init__(self, **kwargs):
        pass
