package com.qualcomm.qti.qms.api.mink;

/** Stand-in for the Android Mink runtime: only what generated code relies on. */
public interface IMinkObject {
    int OK = 0;
    int ERROR = 1;
    int ERROR_INVALID = 2;
    int ERROR_SIZE_IN = 3;
    int ERROR_SIZE_OUT = 4;
    int ERROR_MEM = 5;
    int ERROR_USERBASE = 10;
    int ERROR_DEFUNCT = -90;
    int ERROR_ABORT = -91;
    int ERROR_BADOBJ = -92;

    class InvokeException extends Exception {
        private final int code;
        public InvokeException(int code) {
            super("invoke error " + code);
            this.code = code;
        }
        public int getErrorCode() {
            return code;
        }
    }

    void invoke(int methodID, byte[][] bi, int[] boSizes, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws InvokeException;
    void retain();
    void release();
    boolean isNull();
}
