class EstimateNoiserBase:
    def __call__(self, estimate):
        raise NotImplementedError()
