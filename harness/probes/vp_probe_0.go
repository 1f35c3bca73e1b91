package crypto

// VPProbes gives the trace driver access to unexported operations.  The files
// vp_probe_*.go enter the package through a build overlay only; each is
// independent, and one that no longer compiles is left out of the build.
var VPProbes = map[string]interface{}{}
