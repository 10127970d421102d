from . import discrete, continuous, relations, system, testing  # noqa
