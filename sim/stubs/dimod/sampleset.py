from . import SampleSet, as_samples, concatenate  # noqa: F401
