"""Home module of the dataclasses and attrs classes generated at run time (so that they can be pickled)."""
