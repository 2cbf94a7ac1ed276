"""setup_cmd: builds every driver once so that later checks start from a warm compiler cache.
A driver that does not build here is reported by its own check, not by the set-up."""
import importlib, traceback
def main():
    import registry
    for b in registry.BUILDS:
        try:
            b()
        except Exception:
            traceback.print_exc()
    return 0
