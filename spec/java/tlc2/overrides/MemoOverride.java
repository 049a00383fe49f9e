package tlc2.overrides;

import java.util.concurrent.ConcurrentHashMap;
import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.Value;

/** Memo(k, e) == e, where the key k determines the value of e: e is evaluated once per key. */
public final class MemoOverride {
  private static final ConcurrentHashMap<String, Value> cache = new ConcurrentHashMap<>();

  @Evaluation(definition = "Memo", module = "BigInts", warn = false, silent = true)
  public static Value memo(Tool tool, ExprOrOpArgNode[] args, Context c, TLCState s0, TLCState s1, int control, CostModel cm) {
    String k = tool.eval(args[0], c, s0, s1, control, cm).toString();
    Value v = cache.get(k);
    if (v == null) {
      v = (Value) tool.eval(args[1], c, s0, s1, control, cm);
      v.deepNormalize();
      if (cache.size() > 40000) cache.clear();
      cache.put(k, v);
    }
    return v;
  }
}
