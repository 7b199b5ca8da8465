""" Runtime-monitoring support shared by every check in /verif. """
