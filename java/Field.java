// TLC evaluation of the (J) operators of spec/Field.tla over the real prime field.
// Elements are lower-case hex strings without leading zeros.
import java.math.BigInteger;
import tlc2.value.impl.*;
public class Field {
  static final BigInteger P = new BigInteger(System.getProperty("field.p",
     "16798108731015832284940804142231733909759579603404752749028378864165570215949"));
  static final StringValue INV2 = v(P.add(BigInteger.ONE).shiftRight(1));
  static final StringValue INV6 = v(BigInteger.valueOf(6).modInverse(P));
  static final StringValue[] SMALL = new StringValue[17];
  static { for (int i = 0; i < SMALL.length; i++) SMALL[i] = v(BigInteger.valueOf(i).mod(P)); }
  static BigInteger n(Value x) { return new BigInteger(((StringValue) x).val.toString(), 16); }
  static StringValue v(BigInteger x) { return new StringValue(x.toString(16)); }
  public static Value FInt(Value x) {
    int i = ((IntValue) x).val;
    if (i >= 0 && i < SMALL.length) return SMALL[i];
    return v(BigInteger.valueOf(i).mod(P));
  }
  public static Value FDec(Value x) {
    return x instanceof IntValue ? FInt(x) : v(new BigInteger(((StringValue) x).val.toString()).mod(P));
  }
  static boolean zero(Value a) { return ((StringValue) a).val.length() == 1 && ((StringValue) a).val.toString().equals("0"); }
  static boolean one(Value a) { return ((StringValue) a).val.length() == 1 && ((StringValue) a).val.toString().equals("1"); }
  public static Value FAdd(Value a, Value b) {
    if (zero(a)) return b; if (zero(b)) return a;
    BigInteger s = n(a).add(n(b)); if (s.compareTo(P) >= 0) s = s.subtract(P); return v(s); }
  public static Value FSub(Value a, Value b) {
    if (zero(b)) return a;
    BigInteger s = n(a).subtract(n(b)); if (s.signum() < 0) s = s.add(P); return v(s); }
  public static Value FMul(Value a, Value b) {
    if (zero(a)) return a; if (zero(b)) return b; if (one(a)) return b; if (one(b)) return a;
    return v(n(a).multiply(n(b)).mod(P)); }
  public static Value FInv2() { return INV2; }
  public static Value FInv6() { return INV6; }
}
