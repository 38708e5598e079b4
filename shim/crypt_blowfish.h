#pragma once
/* Stand-in for the third-party crypt_blowfish: see ow-crypt.h */
