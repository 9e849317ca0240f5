"""
DARM is not available here (libs.darm is an external library that is not in the repository). The modules using it are
imported with a stand-in: none of the functions checked calls it.
"""
import sys
import types


def stub_darm():
    if 'libs.darm' not in sys.modules:
        try:
            import libs.darm  # noqa
            return
        except ImportError:
            pass
        import libs
        package = types.ModuleType('libs.darm')
        package.__path__ = []
        darm = types.ModuleType('libs.darm.darm')
        package.darm = darm
        sys.modules['libs.darm'] = package
        sys.modules['libs.darm.darm'] = darm
        libs.darm = package
