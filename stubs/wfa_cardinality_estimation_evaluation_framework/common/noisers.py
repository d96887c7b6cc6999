class LaplaceMechanism:
    pass


class GeometricMechanism:
    pass
