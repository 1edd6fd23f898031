package sim

// linkedRuntime names the runtime archive the simulator is linked with (set by tools/build.sh).
var linkedRuntime string
