package boozspec;

/** Registers the Java implementations of the operators of module BoozReal with TLC. */
public class Overrides implements tlc2.overrides.ITLCOverrides {
  @Override
  public Class[] get() { return new Class[] { Real.class }; }
}
