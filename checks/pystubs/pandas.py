"""Stand-in: the rows, as they are given."""


class DataFrame(list):
    pass
