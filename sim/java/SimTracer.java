import java.util.HashMap;
import java.util.HashSet;
import java.util.LinkedHashSet;
import java.util.concurrent.Semaphore;

import org.python.core.Py;
import org.python.core.PyFrame;
import org.python.core.PyObject;
import org.python.core.TraceFunction;
import org.python.core.ThreadState;

/**
 * Line tracer for the deterministic thread scheduler and for faults injected
 * at arbitrary lines.  Only lines of the library under test are seen.  All
 * fields are written by the controller while no task runs.
 */
public class SimTracer extends TraceFunction {
    public String prefix;           // scratch copy of the library
    public String[] skip = {};      // file name suffixes not preempted in
    public long lines;
    public long maxLines = Long.MAX_VALUE;
    public int left = -1;           // ticks until preemption; -1 never
    public boolean coldOnly;        // count first executions of a line only
    public boolean aborting;
    public boolean overrun;
    public Semaphore main;
    public Semaphore current;
    public String where = "start";
    public PyObject abort;          // exception class raised to unwind
    public PyObject inject;         // exception raised at the tick instead
    public boolean injected;
    public LinkedHashSet<String> record;    // lines executed, in order
    public String site;             // a line to preempt at
    public int siteLeft = -1;       // its executions before that; -1 never

    private final HashMap<String, Boolean> ok = new HashMap<>();
    private final HashSet<String> seen = new HashSet<>();

    private boolean traced(PyFrame f) {
        String fn = f.f_code.co_filename;
        Boolean b = ok.get(fn);
        if (b == null) {
            boolean v = fn.startsWith(prefix);
            for (String s : skip) {
                if (fn.endsWith(s)) {
                    v = false;
                }
            }
            b = v;
            ok.put(fn, b);
        }
        return b && !"<module>".equals(f.f_code.co_name);
    }

    public TraceFunction traceCall(PyFrame frame) {
        return traced(frame) ? this : null;
    }

    public TraceFunction traceReturn(PyFrame frame, PyObject ret) {
        return this;
    }

    public TraceFunction traceException(PyFrame frame,
            org.python.core.PyException exc) {
        return this;
    }

    public TraceFunction traceLine(PyFrame frame, int line) {
        lines++;
        if (record != null) {
            record.add(frame.f_code.co_filename + ":" + line);
            return this;
        }
        if (siteLeft >= 0
                && site.equals(frame.f_code.co_filename + ":" + line)) {
            siteLeft--;
            if (siteLeft < 0) {
                where = frame.f_code.co_filename.substring(
                    prefix.length() + 1) + ":" + frame.f_code.co_name + ":"
                    + line;
                yieldNow();
                return this;
            }
        }
        if (left >= 0) {
            if (coldOnly) {
                if (!seen.add(frame.f_code.co_filename + ":" + line)) {
                    return this;
                }
            }
            left--;
            if (left < 0) {
                where = frame.f_code.co_filename.substring(
                    prefix.length() + 1) + ":" + frame.f_code.co_name + ":"
                    + line;
                if (inject != null) {
                    injected = true;
                    throw Py.makeException(inject);
                }
                yieldNow();
            }
        }
        if (lines > maxLines) {
            overrun = true;
            throw Py.makeException(abort);
        }
        return this;
    }

    /** Hands control to the controller until this task is chosen again. */
    public void yieldNow() {
        Semaphore mine = current;
        main.release();
        mine.acquireUninterruptibly();
        if (aborting) {
            throw Py.makeException(abort);
        }
    }

    public void arm() {
        Py.getThreadState().tracefunc = this;
    }

    public static void disarm() {
        Py.getThreadState().tracefunc = null;
    }
}
