"""Abstract interpretation of blueqat's source (never imports or runs it)."""
