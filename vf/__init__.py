"""Runtime-monitoring harness for curvlinops (see DESIGN.md)."""
