"""The publishers a data set holds, whatever attribute keeps them (None if it cannot be told)."""
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData


def publishers(ds):
    for v in vars(ds).values():
        v = list(v.values()) if isinstance(v, dict) else v
        if isinstance(v, (list, tuple)) and v and all(isinstance(x, PublisherData) for x in v):
            return list(v)
    return None
