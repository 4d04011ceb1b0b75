// TLC overrides for module TraceIO: the trace file named by the environment
// variable TRACES, read and parsed once per TLC run.
import tlc2.value.impl.*;

public class TraceIO {
  private static TupleValue cache;
  private static synchronized TupleValue load() {
    if (cache == null) {
      try {
        Value v = (Value) tlc2.overrides.Json.deserialize(new StringValue(System.getenv("TRACES")));
        v.deepNormalize();
        cache = (TupleValue) v.toTuple();
      } catch (java.io.IOException e) { throw new RuntimeException(e); }
    }
    return cache;
  }
  public static Value NTraces() { return IntValue.gen(load().elems.length); }
  public static Value TraceAt(Value k) { return load().elems[((IntValue) k).val - 1]; }
}
