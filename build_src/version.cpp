extern const char* ESMINI_GIT_TAG;
extern const char* ESMINI_GIT_REV;
extern const char* ESMINI_GIT_BRANCH;
extern const char* ESMINI_BUILD_VERSION;
const char* ESMINI_GIT_TAG       = "verif";
const char* ESMINI_GIT_REV       = "verif";
const char* ESMINI_GIT_BRANCH    = "verif";
const char* ESMINI_BUILD_VERSION = "0";
