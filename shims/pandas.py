"""Only what the import of traittypes needs."""


class Series:
    pass


class DataFrame:
    pass
