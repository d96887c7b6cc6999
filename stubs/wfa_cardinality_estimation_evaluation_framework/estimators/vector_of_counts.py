class VectorOfCounts:
    pass
