"""Stand-in for scikit-cuda on the emulated device."""
