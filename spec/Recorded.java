import java.util.stream.IntStream;
import tlc2.value.impl.*;

/** Every worker of TLC evaluates the constant: the files are read once. */
public class Recorded {
  private static Value read = null;

  public static synchronized Value ReadAll(Value files) {
    if (read != null) return read;
    SetEnumValue s = (SetEnumValue) files.toSetEnum();
    s.normalize();
    int n = s.elems.size();
    Value[] keys = new Value[n], logs = new Value[n];
    IntStream.range(0, n).parallel().forEach(i -> {
      keys[i] = s.elems.elementAt(i);
      try {
        logs[i] = (Value) tlc2.overrides.Json.ndDeserialize((StringValue) keys[i]);
        logs[i].deepNormalize();
      } catch (java.io.IOException e) {
        throw new RuntimeException("ndDeserialize: " + e);
      }
    });
    Value v = new FcnRcdValue(keys, logs, false).normalize();
    v.deepNormalize();
    read = v;
    return read;
  }
}
