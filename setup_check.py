"""Nothing is built: make sure the analysis libraries are importable."""
import mypy  # noqa: F401
import networkx  # noqa: F401
print("ok")
