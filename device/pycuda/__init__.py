"""Stand-in for PyCUDA on an emulated device: the part of its interface that brainstorm uses,
with the checks the original makes."""
VERSION = (2016, 1, 2)
EMULATED = True
