public class FpOverrides implements tlc2.overrides.ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override public Class[] get() { return new Class[] { FpOps.class }; }
}
