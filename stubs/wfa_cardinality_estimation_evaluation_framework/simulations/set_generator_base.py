class SetGeneratorBase:
    pass
