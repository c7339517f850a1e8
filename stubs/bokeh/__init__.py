"""Stand-in for the plotting library: keeps what would be drawn."""
__version__ = '0.9.3'
