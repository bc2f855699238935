package aga8tla;

import tlc2.overrides.ITLCOverrides;

public final class Overrides implements ITLCOverrides {
    @Override public Class[] get() { return new Class[] { F64.class }; }
}
