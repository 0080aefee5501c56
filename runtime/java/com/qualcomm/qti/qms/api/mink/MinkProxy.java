package com.qualcomm.qti.qms.api.mink;

public class MinkProxy {
    protected IMinkObject minkObject;
    public MinkProxy(IMinkObject o) {
        minkObject = o;
    }
    public IMinkObject getObject() {
        return minkObject;
    }
}
