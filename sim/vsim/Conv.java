package vsim;

/** Conversion of nested values between model and real objects. */
public interface Conv {
  Object toReal(Object model);
  java.util.List<?> toRealList(Object model);
  Object toModel(Object real);
  Object toModelList(java.util.List<?> real);
}
