TRICK_CFLAGS += -Iinclude
TRICK_CXXFLAGS += -Iinclude
TRICK_SWIG_FLAGS +=
