"""Stand-in: nothing is drawn."""
