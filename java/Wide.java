// TLC evaluation of the (J) operators of spec/Wide.tla on hexadecimal strings.
import java.math.BigInteger;
import tlc2.value.impl.*;
public class Wide {
  static final BigInteger M = BigInteger.ONE.shiftLeft(512);
  static BigInteger n(Value x) { return new BigInteger(((StringValue) x).val.toString(), 16); }
  static StringValue v(BigInteger x) { return new StringValue(x.toString(16)); }
  public static Value WAdd(Value a, Value b) { return v(n(a).add(n(b)).mod(M)); }
  public static Value WSub(Value a, Value b) { return v(n(a).subtract(n(b)).mod(M)); }
  public static Value WMul(Value a, Value b) { return v(n(a).multiply(n(b))); }
  public static Value WLess(Value a, Value b) { return n(a).compareTo(n(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value WRed(Value a) { return v(n(a).mod(Field.P)); }
  public static Value WBits(Value a, Value k) {
    BigInteger x = n(a); int m = ((IntValue) k).val; StringBuilder s = new StringBuilder();
    for (int i = 0; i < m; i++) s.append(x.testBit(i) ? '1' : '0');
    return new StringValue(s.toString()); }
  public static Value WLen(Value a) { return IntValue.gen(n(a).bitLength()); }
}
