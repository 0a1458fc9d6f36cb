#ifndef _REDSHIFT_VERSION_
#define _REDSHIFT_VERSION_
#define CPF_REDSHIFT_REVISION "verif"
#endif
