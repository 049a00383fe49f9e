package tlc2.overrides;

public class VOverrides implements ITLCOverrides {
  @Override public Class[] get() { return new Class[] { BigInts.class, Towers.class, MemoOverride.class }; }
}
