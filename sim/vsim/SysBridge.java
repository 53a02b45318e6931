package vsim;

import io.netty.buffer.ByteBuf;
import java.util.function.Supplier;

/** Access to everything in the repository that is not a message class (implemented in bridge/Sys.java). */
public interface SysBridge {
  Object newService(String kind);
  Object stubService(String name, int id);
  /** A service of the application that computes by calling back. */
  Object hookService(String name, java.util.function.ToIntFunction<ByteBuf> f);
  int stubId(Object svc);
  int calc(Object svc, ByteBuf b);
  boolean verify(Object svc, ByteBuf b, int expected);
  String algorithm(Object svc);
  boolean registry(Object svc);
  Object lookup(String name);
  void removeService(String name);
  void clearServices();

  Object create(String owner, Object key);
  void register(String owner, Object key, Object sample, Supplier<Object> s);
  boolean remove(String owner, Object key);
  Object customBody(int id, CustomBody cb);
  int customId(Object o);

  /** SSE: classes of the application that extend body classes. */
  Class<?>[] sseSubclasses();
  /** SSE: number of a body class, null when there is none. */
  Integer sseTypeOf(Class<?> c);
  /** SSE: registers a type for a class. */
  void sseRegister(Class<?> c, int type, Supplier<Object> s);
  /** SSE: number of the constant found under a number. */
  int sseConstant(int n);

  Object bitmap(int width);
  void bmSet(Object bm, int pos);
  boolean bmGet(Object bm, int pos);
  void bmClear(Object bm, int pos);
  void bmWrite(Object bm, ByteBuf b);
  void bmRead(Object bm, ByteBuf b);
  int bmCount(Object bm);

  void writeFixed(ByteBuf b, String s, int len);
  void writeFixed(ByteBuf b, String s, int len, char pad, boolean left);
  String readFixed(ByteBuf b, int len);
  String readFixed(ByteBuf b, int len, char pad, boolean left);
  String trim(String s, char ch, boolean left);
}
