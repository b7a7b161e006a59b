"""Repository-specific static analyser for finmlkit (never imports or runs the analysed code)."""
