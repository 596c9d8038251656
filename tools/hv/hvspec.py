R=None
