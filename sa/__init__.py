"""Static analyser for spectralDNS (see ../DESIGN.md)."""
