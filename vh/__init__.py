"""Property-based checks for ndspy."""
import glob
import sys


def _find_pillow():
    """Make Pillow importable (before ndspy is), if the repository's environment has it."""
    try:
        import PIL.Image  # noqa: F401
        return
    except ImportError:
        pass
    for d in glob.glob('/opt/venv/lib/python%d.%d/site-packages/PIL' % sys.version_info[:2]):
        path = d[:-4]
        sys.path.append(path)
        try:
            import PIL.Image  # noqa: F401
        except ImportError:
            for m in [m for m in sys.modules if m == 'PIL' or m.startswith('PIL.')]:
                del sys.modules[m]
        finally:
            sys.path.remove(path)


_find_pillow()
