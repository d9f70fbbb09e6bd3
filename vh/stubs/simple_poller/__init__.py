"""Stand-in for the third-party package 'simple_poller' (absent offline). It is only used for
interactive prompts of the profile plotting code, which the checks never enter."""


class Poller:
    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs

    def poll(self, *args, **kwargs):
        raise RuntimeError('interactive polling is not available')
