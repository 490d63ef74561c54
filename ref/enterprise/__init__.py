try:
    from .version import version
except:
    version = "unknown"

__version__ = version
