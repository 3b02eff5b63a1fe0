# one entry per property; see meta.py
SEARCH = "seeded random search, not exhaustive: sequentially consistent interleavings of instrumented accesses, small inputs (up to about 12 observation points, 8 elements, 12 threads)"
prop("C01", "Single-element responses equal their discrete sum under every schedule",
 "The response returned for a single transducer (line, rectangle, circle, sphere, cylinder, focused rectangle and circle) equals, for every observation point and time sample, the sum over the sampled aperture of the area-weighted contributions falling in that sample. The result does not depend on the number of threads, on how they are scheduled or on what was computed before, and an all in range computation reports success.",
 ["schedules", "inputs", "histories", "configurations"], "every thread schedule, thread count, sampling grid, time window and sequence of earlier calls",
 "the tests run one schedule and one thread setting on fixed geometries and only look at the error status or at plots; a race, a bad partition of the observation points or stale state shows up only for some interleavings, counts or call sequences",
 ["src/dreamline.cc", "src/dreamrect.cc", "src/dreamcirc.cc", "src/dreamsphere.cc", "src/dreamcylind.cc", "src/dreamrect_f.cc", "src/dreamcirc_f.cc"],
 [("partition of observation points over threads", "run() and smp_*() of each class"), ("superposition in the time window", "*_serial()")], SEARCH, state=[("m_out_err / running", "shared status of a computation", "class members and file-level atomics")])
prop("C02", "Array responses equal the weighted sum of element responses",
 "The response of an array (rectangular, circular, cylindrical or annular elements) equals the sum over the elements of the element response, delayed by the selected focusing and steering laws and weighted by the selected apodization. The result is the same for every thread count and schedule and for every sequence of earlier calls.",
 ["schedules", "inputs", "histories", "configurations"], "every focusing, steering and apodization mode, element layout, thread count, schedule and call history",
 "tests fix one array, one focusing mode and the machine's own schedule, and do not check values",
 ["src/dream_arr_rect.cc", "src/dream_arr_circ.cc", "src/dream_arr_cylind.cc", "src/dream_arr_annu.cc", "src/arr_functions.cc"],
 [("element loop with delays and weights", "dream_arr_*_serial()"), ("focusing, steering, apodization laws", "arr_functions.cc")], SEARCH)
prop("C03", "Lossy responses equal the superposition of attenuated contributions",
 "With a lossy medium every contribution is replaced by the causal attenuation response for its distance and arrival sample, and the response returned is the sum of those, for single transducers and arrays alike. The result is the same for every schedule and thread count, although the spectral work areas and plans are shared between threads.",
 ["schedules", "inputs", "histories", "configurations"], "every schedule, thread count, attenuation value, window length and call history",
 "the attenuation tests use a single schedule and do not compare values; sharing of transform buffers only fails under particular interleavings",
 ["src/attenuation.cc", "include/attenuation.h", "include/fft.h", "src/dreamrect.cc", "src/dream_arr_rect.cc"],
 [("per thread transform buffers", "smp_*() of each class"), ("attenuation response", "Attenuation::att")], SEARCH)
prop("C04", "Beamformed images equal the delay-and-sum of the data under every schedule",
 "The image returned by delay-and-sum beamforming equals, for every image point, the sum over the transmit and receive elements of the acquisition method (SAFT, TFM and the two row-column layouts) of the data sample at the two-way travel time truncated to a sample index plus delay. Both precisions give this result, in the precision of the data, for every thread count, schedule and call history, and an all in range call reports success.",
 ["schedules", "inputs", "histories", "configurations"], "every method, precision, element and image point count, thread count, schedule and earlier call",
 "the tests beamform two fixed data sets on one schedule",
 ["extra_src/das.cc", "extra_src/oct_das.cc", "include/das.h"],
 [("partition of the image points over threads", "DAS::das, DAS::smp_das"), ("travel time and sample index of each method", "DAS::das_*_serial")], SEARCH)
prop("C05", "Parallel convolutions equal column-wise linear convolution under every schedule",
 "The direct, the FFT based and the summed FFT based convolution functions return, column by column, the full linear convolution of their inputs (a vector is used for every column; the summed one adds over the pages and is scaled by the transform length as documented). Thread count, schedule, supplied transform wisdom and earlier calls do not change the result.",
 ["schedules", "inputs", "histories", "configurations"], "every shape (including single samples, single columns and row vectors), thread count, schedule, wisdom and earlier call",
 "the tests convolve a few fixed shapes on one schedule; shared transform buffers or a wrong column split only fail for some thread counts and interleavings",
 ["extra_src/oct_conv_p.cc", "extra_src/oct_fftconv_p.cc", "extra_src/oct_sum_fftconv.cc", "include/conv.h", "include/fftconv.h", "include/fft.h"],
 [("column partition over threads", "the gateway functions"), ("per thread work vectors", "smp_dream_fftconv*")], SEARCH)
prop("C06", "In-place convolutions assign, add or subtract exactly once per element",
 "Given an output argument, the convolution functions write the convolution into that array: replacing it by default and with '=', adding it with '+=' and subtracting it with '-=', each element exactly once. This holds with and without transform wisdom, for every thread count and schedule, and no other argument changes.",
 ["schedules", "inputs", "histories", "configurations"], "every mode, argument combination, shape, thread count, schedule and earlier call",
 "an update that is lost, doubled or applied to an uninitialised work array appears only with particular thread counts, modes and call sequences; the tests try each mode on one schedule",
 ["extra_src/oct_conv_p.cc", "extra_src/oct_fftconv_p.cc", "extra_src/oct_fftconv_ola.cc", "extra_src/oct_sum_fftconv.cc", "include/conv.h", "include/fftconv.h"],
 [("in-place modes", "conv(), fftconv(), add_fftconv() and the gateways")], SEARCH)
prop("C07", "Overlap-add convolution is independent of the block length",
 "Overlap-add convolution returns the full linear convolution for every block length, also when the block length does not divide the signal length, and in every in-place mode. Thread count, schedule, wisdom and earlier calls do not change the result.",
 ["schedules", "inputs", "histories", "configurations"], "every block length, shape, mode, thread count, schedule and earlier call",
 "the test uses one block length and one schedule; left-overs of the previous block or column are visible only for other lengths and splits",
 ["extra_src/oct_fftconv_ola.cc", "include/fftconv.h"], [("block loop and work vectors", "smp_dream_fftconv_ola")], SEARCH)
prop("C08", "Parallel copy and add change exactly the selected block, once",
 "The parallel copy and add functions change exactly the selected rows and columns of the target array, to the given values or by adding them exactly once, whatever the thread count, schedule and earlier calls. Nothing outside the selected block and none of the other arguments changes.",
 ["schedules", "inputs", "histories", "configurations"], "every row and column range, target shape, thread count, schedule and earlier call",
 "the test copies one block on one schedule; a wrong column split writes or reads elsewhere only for other ranges and counts",
 ["extra_src/oct_copy_p.cc", "extra_src/oct_add_p.cc"], [("column partition over threads", "copy_p, add_p")], SEARCH)
prop("C09", "Analytic responses equal their closed-form reference under every schedule",
 "The analytic rectangular and circular responses (point sampled and sampled over the interval) equal the closed-form expression for every observation point and every time sample, and are finite everywhere, including at edge arrival times. Thread count, schedule and earlier calls do not change the result.",
 ["schedules", "inputs", "histories", "configurations"], "every geometry, region of space, time window, delay mode, thread count, schedule and earlier call",
 "the tests compute one geometry on one schedule and do not check values",
 ["extra_src/rect_sir.cc", "extra_src/oct_circ_sir.cc", "extra_src/oct_scirc_sir.cc", "include/circ_sir.h", "include/scirc_sir.h"],
 [("closed form responses", "rect_sir_serial, circ_sir, scirc_sir"), ("partition over threads", "the gateways and RectSir::rect_sir")],
 SEARCH + "; points where the sampled circular response is ill-conditioned (on the rim, grazing) are not generated")
prop("C10", "Out-of-window contributions stop, warn or are ignored exactly as requested",
 "If a contribution falls outside the time window, level 'stop' (the default) ends the call with an out-of-bounds error, 'warn' completes it with a printed warning and the warning status, and 'ignore' completes it silently with the ignore status; a call without such contributions reports success. Completed results hold all in-window contributions and only those. The outcome does not depend on which point, element or thread met the contribution, nor on the schedule.",
 ["schedules", "inputs", "histories", "configurations"], "every position of the offending point, level, function, thread count and schedule",
 "the tests have no deliberately out-of-window point handled by a worker other than the last; losing one worker's status needs a particular split",
 ["src/dream_error.cc", "src/dreamrect.cc", "src/dreamcirc.cc", "src/dreamsphere.cc", "src/dreamcylind.cc", "src/dreamline.cc", "src/dream_arr_rect.cc", "src/dream_arr_annu.cc", "extra_src/das.cc"],
 [("status of each thread joined by the caller", "the methods that start the threads"), ("stop flag polled by all threads", "smp_*()")], SEARCH,
 state=[("running flag", "cleared to stop every thread", "file level atomics")])
FS = "seeded random search over fault positions, not exhaustive; "
prop("C11", "An interrupt stops a computation promptly and never yields a partial result",
 "When the user interrupts a computation at any moment, the call either ends with an interrupt error or returns the complete, correct result: never a partial one. It returns only after all its threads have stopped, and within a bounded amount of work: each thread finishes at most the point or column it is at.",
 ["schedules", "fault_sequences", "inputs"], "every function, every step at which one or two interrupts arrive, every thread they arrive on, every thread count and schedule",
 "no test sends a signal; the outcome depends on the instant of delivery relative to each thread's progress",
 ["src/dreamrect.cc", "src/dreamline.cc", "extra_src/das.cc", "extra_src/oct_conv_p.cc", "extra_src/oct_fftconv_p.cc", "include/signal_guard.h"],
 [("run flag polled for each point or column", "smp_*()"), ("interrupt outcome reported by the gateway", "oct_*.cc")], FS + SEARCH, ", interrupt instants")
prop("C12", "A call is unaffected by what happened in earlier calls",
 "After a call that was interrupted, ran out of memory, could not start threads, could not set up a transform or stopped on an out-of-window contribution, every following call of the same or of any other function behaves exactly as in a fresh session. Its result, status, error and printed warnings are those of the reference.",
 ["histories", "fault_sequences", "schedules", "inputs"], "every sequence of calls and failures",
 "each test process makes calls that all succeed; residue of a failed call needs a failure at the right place and a following call that reads it",
 ["src/dreamrect.cc", "extra_src/das.cc", "extra_src/oct_fftconv_p.cc", "include/fft.h", "include/signal_guard.h"],
 [("state reset at the start of each call", "run flag and status initialisation"), ("release on every exit", "destructors")], FS + "histories of 3 to 6 calls over up to three functions", ", histories and fault sequences",
 state=[("file-level flags", "run and verbosity flags survive between calls", "every module"), ("transform plans and wisdom", "process wide", "FFTW")])
prop("C13", "Signal handlers are put back on every exit",
 "After every call of every function, whether it returned, failed, ran out of memory or was interrupted, the disposition of every signal is what it was before the call.",
 ["histories", "fault_sequences", "schedules"], "every exit path reached by faults at sampled instants, every function and sequence",
 "tests never look at signal dispositions nor take failing exits",
 ["include/signal_guard.h", "extra_src/oct_conv_p.cc", "oct/oct_dreamrect.cc", "extra_src/oct_das.cc"], [("scoped handler registration", "signal_guard.h and its users")], FS + "dispositions are a virtual table behind signal() and sigaction()", ", interrupts and failures",
 observe=["signal dispositions of the process"])
prop("C14", "Computations complete when worker threads cannot be created",
 "When the system refuses to create some or all worker threads, every computation still completes with the correct result and status, runs every part exactly once, and neither crashes nor hangs.",
 ["fault_sequences", "schedules", "inputs"], "every subset of refused thread creations, function, thread count and schedule",
 "the tests cannot make thread creation fail",
 ["src/dreamrect.cc", "extra_src/das.cc", "extra_src/oct_conv_p.cc", "extra_src/oct_fftconv_p.cc"], [("work done by the calling thread instead", "the loops that start threads")], FS + SEARCH, ", refused thread creations")
prop("C15", "Failing memory allocation is reported and leaves the session usable",
 "When an allocation made by the calling thread or by one of its worker threads fails, or a transform cannot be planned, the call ends with an error or with the complete correct result; it does not crash, abort, hang or return a wrong result. No thread of the call keeps running, and the next call works.",
 ["fault_sequences", "schedules", "histories"], "every allocation of a call, alone or in pairs, for every function",
 "the tests cannot make allocation fail",
 ["src/dreamrect.cc", "include/fft.h", "extra_src/das.cc", "extra_src/oct_fftconv_p.cc", "include/joining_threads.h"], [("unwinding with threads waited for", "scoped resources of each gateway")],
 FS + "allocations inside the array classes of Octave (16 and 24 byte dimension vectors) are not failed", ", failed allocations and plans")
prop("C16", "No call reads or writes memory outside its arrays or changes its inputs",
 "For every input the functions accept, including observation points whose contributions fall outside the time window, every access of every thread stays inside the arrays of the call: nothing is read or written out of bounds or after release. Input arguments keep their values.",
 ["inputs", "schedules", "fault_sequences", "histories"], "every accepted input, window, delay law, error level, thread count, schedule, interrupt and refused thread",
 "an out-of-bounds access usually goes unnoticed in a test, and needs particular delays, sizes or splits to happen",
 ["src/dreamrect.cc", "src/dream_arr_annu.cc", "extra_src/das.cc", "include/fftconv.h", "extra_src/oct_fftconv_ola.cc", "include/arg_parser.h"],
 [("window check before each accumulation", "*_serial()"), ("lifetime of converted arguments", "arg_parser.h")], FS + "accesses to heap blocks are checked against a shadow of the arena; stack and static data are not", ", interrupts and refused threads",
 observe=["every instrumented memory access", "arguments after the call"])
prop("C17", "Threads, memory and transform plans are released on every exit",
 "A call that returns, fails, is interrupted, runs out of memory or cannot start threads leaves nothing behind: repeating it does not grow the memory in use, the number of transform plans or the number of threads.",
 ["histories", "fault_sequences", "schedules"], "every exit path reached by faults at sampled instants, every function",
 "tests never count resources nor take failing exits", ["include/fft.h", "include/joining_threads.h", "extra_src/das.cc", "extra_src/oct_sum_fftconv.cc", "include/arg_parser.h"],
 [("scoped ownership", "destructors and smart pointers of each gateway")], FS + "memory is counted in the checked arena, plans at the transform library's interface", ", interrupts and failures", observe=["heap blocks, plans and threads after each call"])
prop("C18", "GPU computations give the reference result or report an error",
 "For the functions that can compute on an OpenCL device (dreamrect, dreamcirc, rect_sir, das, das_uni), whatever the number of points, the order in which work-items run and the calls that went before: the result is the reference result, or an error is reported. A failing OpenCL call, missing kernel file, interrupt or failed allocation never leads to a crash or to a wrong result. Host and device memory is only accessed inside its arrays, no device object is leaked by repeating a call, and no device command is still running on return.",
 ["inputs", "schedules", "fault_sequences", "histories"], "every input, work-item order, failing OpenCL call and call history of the functions with a GPU version",
 "the tests need a GPU, compare one size per function, and no OpenCL call fails in them",
 ["src/dreamrect.cc", "src/dreamcirc.cc", "extra_src/rect_sir.cc", "extra_src/das.cc", "extra_src/das_uni.cc", "opencl/das.cl", "opencl/dreamrect.cl", "include/cl_object.h"],
 [("transfer, kernel arguments, launch and read-back", "cl_* member functions"), ("one work-item for each point", "opencl/*.cl")],
 FS + "the OpenCL runtime is simulated: kernels are the real source compiled to native code, work-items are interleaved, and every runtime call can fail; a vendor's compiler, driver and device arithmetic are not run",
 ", failing device calls, interrupts and failed allocations", observe=["values and errors", "device objects and commands after each call"])
prop("C19", "Python functions return the same results and failures as the reference",
 "Every function of the Python extension modules returns the reference result for all array layouts it accepts (column or row major, strided, read only, one-dimensional). When a computation is interrupted, cannot start threads, cannot plan a transform or meets an out-of-window contribution it raises an exception or returns the complete result. Arguments, reference counts, signal dispositions and memory are left as they were, and following calls are unaffected.",
 ["inputs", "schedules", "fault_sequences", "histories"], "every Python function, array layout, thread count, schedule, failure and call history",
 "the Python modules have hardly any tests: values, layouts, failing exits and interpreter state are not examined",
 ["python/src/py_dreamrect.cc", "python/src/py_das.cc", "python/src/py_fftconv_p.cc", "python/src/py_dream_arr_rect.cc", "python/src/py_dream_arr_annu.cc", "include/arg_parser_python.h"], [("argument conversion", "ArgParser of the Python modules"), ("error reporting by exceptions", "py_*.cc")],
 FS + SEARCH, ", interrupts and failures", observe=["values and exceptions", "reference counts and dispositions after each call"])
prop("C20", "Transform set-up failures are reported and wisdom never changes a result",
 "If a transform cannot be planned or wisdom cannot be imported, the call reports an error and returns no data, or returns correct data; foreign or damaged wisdom strings are rejected or without effect. Planning never runs on two threads at once, and wisdom returned by one call is accepted by later calls without changing results.",
 ["fault_sequences", "histories", "schedules", "inputs"], "every planning and import call that can fail, every wisdom string and sequence of calls",
 "the transform library does not fail in tests and wisdom is used in one fixed sequence",
 ["include/fft.h", "extra_src/oct_fftconv_p.cc", "extra_src/oct_fftconv_ola.cc", "extra_src/oct_sum_fftconv.cc", "src/attenuation.cc"], [("plan creation and import checked", "FFT class")],
 FS + "the real FFTW library runs below the interface, planner effort forced to estimate", ", failed plans and imports")
prop("C21", "Attenuation responses and apodization windows equal their definitions",
"dream_att returns for every point the causal attenuation response of the medium, delayed by the travel time minus the start delay, and dream_apodwin the weights of the requested window over the requested length: ones for 'off' and the supplied weights for 'ud'. This holds whatever was called before in the process, and when memory runs out or a transform cannot be planned the call reports an error or returns the complete result.",
["inputs", "fault_sequences", "histories"], "every medium, point, window length, method, window kind, failing allocation or plan and sequence of calls",
"the tests plot these functions without checking values, in a fixed order and without failures",
["oct/oct_dream_att.cc", "oct/oct_dream_apodwin.cc", "src/attenuation.cc", "src/arr_functions.cc"], [("attenuation response", "Attenuation::att"), ("window laws", "apodization()")],
FS + "seeded sampling of inputs and call sequences; these functions start no threads", ", failed allocations and plans")
prop("C22", "Malformed calls are rejected with an error and leave no trace",
"A call with malformed arguments (too few or too many arguments or results, wrong shape, length or type, empty or higher dimensional arrays, unknown option strings, non-positive sampling steps, NaN or infinite values, an invalid thread count in the environment) returns a complete result or raises an error with a message; arguments whose number or shape contradicts the documentation are rejected. It never crashes, hangs, ends the host, or reads or writes outside its arrays, and following correct calls behave normally with handlers and arguments unchanged.",
["inputs", "histories", "schedules"], "every function, argument position and kind of damage, and every call that follows",
"the tests only make well-formed calls",
["include/arg_parser.h", "src/dream_error.cc", "oct/oct_dreamrect.cc", "extra_src/oct_das.cc", "extra_src/oct_conv_p.cc", "extra_src/oct_sum_fftconv.cc"], [("argument checks", "ArgParser and the gateways"), ("errors raised by rejected arguments", "dream_err_msg")],
FS + "seeded sampling: one damaged argument for each call, from a fixed list of kinds of damage; values that only exhaust memory or time are left out", ", malformed arguments and environment")
prop("C23", "Malformed Python calls raise an exception and leave the interpreter usable",
"A call of a Python function with malformed arguments (too few or too many, None or another object, wrong shape or number of dimensions, empty arrays, unknown option strings, non-positive sampling steps, NaN or infinite values) raises an exception or returns a complete result; arguments whose number or shape contradicts the documentation are rejected. Arrays of another memory order, byte order, alignment or class, and nested lists, give the same result as the plain array or are rejected. No call crashes, hangs, ends the interpreter, keeps references or reads or writes outside its arrays, and following correct calls behave normally.",
["inputs", "histories", "schedules"], "every Python function, argument position, kind of object and kind of damage, and every call that follows",
"the tests only make well-formed calls",
["include/arg_parser_python.h", "python/src/py_dreamrect.cc", "python/src/py_dream_arr_rect.cc", "python/include/py_das.hpp", "python/include/py_fftconv_p.hpp"], [("argument checks", "ArgParser<T>"), ("exceptions", "the gateways")],
FS + "seeded sampling: one damaged argument for each call, from a fixed list of kinds of objects and damage; values that only exhaust memory or time are left out", ", malformed arguments and environment")
prop("C24", "The number of threads follows the setting and changes nothing else",
"A function that works in parallel shares its columns or observation points between threads: never more at a time than DREAM_NUM_THREADS, the number of processor cores, or the columns and points there are, and as many as all of these allow (the calling thread may be one of them). The setting in force when a call starts counts, also when it or the number of cores has changed since an earlier call; a setting that is not a number leaves the cores as the limit or means one thread. The same call returns the same result for every number of threads.",
["configurations", "histories", "schedules", "inputs"], "every function, thread setting, number of cores, number of columns or points, and sequence of changing settings",
"the tests run with the machine's own number of cores and never count threads or compare settings",
["src/dreamrect.cc", "src/dream_arr_annu.cc", "extra_src/das.cc", "extra_src/oct_scirc_sir.cc", "extra_src/oct_copy_p.cc", "extra_src/oct_sum_fftconv.cc"], [("number of threads and partition", "the section 'Number of threads' of each gateway or run()")],
FS + "seeded sampling: cores and settings from 1 to 300 threads; the share of the work done by a thread is measured in instrumented steps and only a nearly serial split is reported", ", changing settings and core counts, refused threads", observe=["threads alive at once", "steps of each thread", "values"])
prop("C25", "GPU beamforming from Python gives the reference result or raises",
"A das call of the Python modules on device 'gpu' returns the reference result for every array layout, number of points, order of work-items and earlier call, or raises an exception. A failing OpenCL call, missing kernel file, interrupt or malformed argument never crashes the interpreter and never gives a wrong result. Host and device memory is only accessed inside its arrays, references and device objects are released, and following calls on either device are unaffected.",
["inputs", "schedules", "fault_sequences", "histories"], "every Python das call, work-item order, failing OpenCL call and call history",
"no test calls the Python das on a GPU",
["python/include/py_das.hpp", "python/src/py_das.cc", "extra_src/das.cc", "opencl/das.cl", "include/cl_object.h"], [("argument conversion and set-up kept between calls", "py_das.hpp"), ("transfer, launch and read-back", "DAS::cl_das")],
FS + "the OpenCL runtime is simulated: kernels are the real source compiled to native code, work-items are interleaved, and every runtime call can fail; a vendor's compiler, driver and device arithmetic are not run", ", failing device calls, interrupts and malformed arguments", observe=["values and exceptions", "references, device objects and commands after each call"])
prop("C26", "Matlab functions give the reference result or an error",
"Called through its Matlab gateway, every DREAM function returns the reference result for every number of threads, schedule and call history. An interrupted call, a contribution outside the window with 'stop' or a failed FFT plan ends in an error, never in a partial result; refused worker threads cost time only. Arguments are left unchanged unless the function works in place, memory is only accessed inside arrays, and when a call ends no thread runs and the signal handlers are as before.",
["inputs", "schedules", "fault_sequences", "histories"], "every Matlab call, number of threads, interleaving, interrupt and call history",
"no test runs the Matlab gateways: they are not even built without Matlab",
["mex/mex_dreamrect.cc", "mex/mex_dream_att.cc", "extra_src/mex_das.cc", "extra_src/mex_fftconv_ola.cc", "extra_src/mex_copy_p.cc", "include/arg_parser.h"], [("error level, device and signal handlers", "mex_*.cc"), ("work division and threads in the gateways", "mex_fftconv_p.cc, mex_copy_p.cc, mex_circ_sir.cc"), ("argument checks", "arg_parser.h")],
FS + "Matlab itself is simulated: its C matrix interface (mx*, mex*) is a small stand-in, so the behaviour of a particular Matlab release is not run; OpenCL calls, failed allocations and in-place sum_fftconv are not made through Matlab", ", interrupts, refused worker threads and failed FFT plans", observe=["values, errors and arguments after each call", "threads and signal handlers after each call"])
prop("C27", "Julia functions give the reference result or an error",
"Called through its Julia gateway, every DREAM function returns the reference result for every number of threads, schedule and call history. An interrupted call, a contribution outside the window with 'stop' or a failed FFT plan ends in an exception, never in a partial result; refused worker threads cost time only. Arguments are left unchanged, memory is only accessed inside arrays, and when a call ends no thread runs and the signal handlers are as before.",
["inputs", "schedules", "fault_sequences", "histories"], "every Julia call, number of threads, interleaving, interrupt and call history",
"no test runs the Julia gateways: they are not even built without Julia",
["julia/src/jl_dream_arr_annu.cc", "julia/src/jl_dream_arr_rect.cc", "julia/src/jl_fftconv_p.cc", "julia/include/jl_das.hpp", "include/arg_parser_julia.h"], [("argument conversion, exceptions and signal handlers", "julia/src/jl_*.cc"), ("set-up kept between calls", "jl_das.hpp"), ("work division and threads in the gateways", "jl_conv_p.cc, jl_fftconv_p.cc")],
FS + "CxxWrap and the Julia runtime are simulated by a small stand-in, so a particular release of either is not run; OpenCL calls and failed allocations are not made through Julia", ", interrupts, refused worker threads and failed FFT plans", observe=["values, exceptions and arguments after each call", "threads and signal handlers after each call"])
prop("C80", "Computed responses converge to the true diffraction integral",
 "As the spatial sampling is refined the discrete responses converge to the exact spatial impulse response of the transducer.",
 ["inputs"], "all geometries and refinements", "needs a numerical-analysis argument, not samples", ["src/dreamrect.cc"], [("discretisation", "*_serial()")], "",
 na="a statement about numerical analysis of a pure function: no schedule, fault, time or history is involved, so simulation decides nothing about it")
