// Configuration of the library as the project's own build generates it
// (see /repo/core/include/... build_config.h.in); used by the harnesses.
#define HUMOTO_COMPILER_SUPPORTS_FUNC_
#define HUMOTO_COMPILER_SUPPORTS_FUNCTION_
#define HUMOTO_DEFAULT_CONFIG_PREFIX "/usr/local/share/humoto/config/"
#ifndef VERIF_NO_LOGGING_THREAD
#define HUMOTO_USE_THREADS_FOR_LOGGING
#endif
#define HUMOTO_GIT_COMMIT_INFO "verif"
#define HUMOTO_BUILD_TESTS
#ifdef VERIF_YAML
#define HUMOTO_BRIDGE_config_yaml
#else
#define HUMOTO_BRIDGE_config_msgpack
#endif
#define HUMOTO_BRIDGE_obstacle_avoidance
#define HUMOTO_MODULE_pepper_mpc
#define HUMOTO_MODULE_wpg04
