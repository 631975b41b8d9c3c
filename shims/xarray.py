"""Only what the import of traittypes needs."""


class Dataset:
    pass


class DataArray:
    pass
