/* Fixed configuration used by the simulation build (mirrors what configure
   produces on this platform; the Python function is left out: it would put an
   interpreter the simulator does not control inside the process). */
#define ENABLE_FACTORIZATION 1
#define ENABLE_PLUGIN 1
#define HAVE_GMP_H 1
#define HAVE_OMP_H 1
#define PACKAGE "hnco"
#define PACKAGE_NAME "hnco"
#define PACKAGE_STRING "hnco 0.26"
#define PACKAGE_VERSION "0.26"
#define VERSION "0.26"
