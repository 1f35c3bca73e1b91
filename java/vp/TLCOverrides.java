package vp;

import tlc2.overrides.ITLCOverrides;

/** Registers the overrides of this directory with TLC (-Dtlc2.overrides.TLCOverrides). */
public class TLCOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() {
    return new Class[] {BigNatOv.class, HashOv.class};
  }
}
