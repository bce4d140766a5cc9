import java.text.Normalizer;
import java.util.function.*;
import java.util.regex.Pattern;
/** Dumps Java 17's Unicode 13.0 properties, in the line format of icu.c. */
public class Dump {
  static StringBuilder o = new StringBuilder();
  static void runs(String n, IntFunction<Object> f) { Object last = null;
    for (int c = 0; c <= 0x10FFFF; c++) { Object v = f.apply(c); if (c == 0 || !v.equals(last)) { o.append(n).append(' ').append(c).append(' ').append(v).append('\n'); last = v; } } }
  static void sparse(String k, int c, String s) { o.append(k).append(' ').append(String.format("%X", c)); s.codePoints().forEach(d -> o.append(String.format(" %X", d))); o.append('\n'); }
  public static void main(String[] a) throws Exception {
    runs("gc", c -> Character.getType(c)); runs("bc", c -> Character.getDirectionality(c)); runs("mirrored", c -> Character.isMirrored(c) ? 1 : 0);
    runs("script", c -> Character.UnicodeScript.of(c)); runs("block", c -> { Object b = Character.UnicodeBlock.of(c); return b == null ? "NO_BLOCK" : b; });
    runs("lower", c -> Character.toLowerCase(c) - c); runs("upper", c -> Character.toUpperCase(c) - c); runs("title", c -> Character.toTitleCase(c) - c);
    for (String p : new String[]{"Alphabetic","Ideographic","Lowercase","Uppercase","White_Space","Hex_Digit","Join_Control","Noncharacter_Code_Point"}) {
      var q = Pattern.compile("\\p{Is" + p + "}"); runs("bin." + p, c -> q.matcher(new String(Character.toChars(c))).matches() ? 1 : 0); }
    Class<?> g = Class.forName("java.util.regex.Grapheme"); var m = g.getDeclaredMethod("getType", int.class); m.setAccessible(true);
    runs("gcb", c -> { try { return m.invoke(null, c); } catch (Exception e) { throw new RuntimeException(e); } });
    for (int c = 0; c <= 0x10FFFF; c++) { if (c >= 0xD800 && c < 0xE000) continue; String s = new String(Character.toChars(c));
      String l = s.toLowerCase(java.util.Locale.ROOT), u = s.toUpperCase(java.util.Locale.ROOT);
      if (!l.equals(s)) sparse("@case lower", c, l); if (!u.equals(s)) sparse("@case upper", c, u);
      String d = Normalizer.normalize(s, Normalizer.Form.NFD), k = Normalizer.normalize(s, Normalizer.Form.NFKD);
      if (!d.equals(s)) sparse("@full nfc", c, d); if (!k.equals(s)) sparse("@full nfkc", c, k); }
    System.out.print(o);
  }
}
