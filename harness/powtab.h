/* powers of ten of each floating point type, as cases of a switch; written by tools/mkpow.py */
#define V_POWF_CORE \
	case -26: return 1e-26f; case -25: return 1e-25f; case -24: return 1e-24f; case -23: return 1e-23f; case -22: return 1e-22f; case -21: return 1e-21f; case -20: return 1e-20f; case -19: return 1e-19f; \
	case -18: return 1e-18f; case -17: return 1e-17f; case -16: return 1e-16f; case -15: return 1e-15f; case -14: return 1e-14f; case -13: return 1e-13f; case -12: return 1e-12f; case -11: return 1e-11f; \
	case -10: return 1e-10f; case -9: return 1e-9f; case -8: return 1e-8f; case -7: return 1e-7f; case -6: return 1e-6f; case -5: return 1e-5f; case -4: return 1e-4f; case -3: return 1e-3f; \
	case -2: return 1e-2f; case -1: return 1e-1f; case 0: return 1e0f; case 1: return 1e1f; case 2: return 1e2f; case 3: return 1e3f; case 4: return 1e4f; case 5: return 1e5f; \
	case 6: return 1e6f; case 7: return 1e7f; case 8: return 1e8f; case 9: return 1e9f; case 10: return 1e10f; case 11: return 1e11f; case 12: return 1e12f; case 13: return 1e13f; \
	case 14: return 1e14f; case 15: return 1e15f; case 16: return 1e16f; case 17: return 1e17f; case 18: return 1e18f; case 19: return 1e19f; case 20: return 1e20f; case 21: return 1e21f; \
	case 22: return 1e22f; case 23: return 1e23f; case 24: return 1e24f; case 25: return 1e25f; case 26: return 1e26f;
#define V_POW_CORE \
	case -26: return 1e-26; case -25: return 1e-25; case -24: return 1e-24; case -23: return 1e-23; case -22: return 1e-22; case -21: return 1e-21; case -20: return 1e-20; case -19: return 1e-19; \
	case -18: return 1e-18; case -17: return 1e-17; case -16: return 1e-16; case -15: return 1e-15; case -14: return 1e-14; case -13: return 1e-13; case -12: return 1e-12; case -11: return 1e-11; \
	case -10: return 1e-10; case -9: return 1e-9; case -8: return 1e-8; case -7: return 1e-7; case -6: return 1e-6; case -5: return 1e-5; case -4: return 1e-4; case -3: return 1e-3; \
	case -2: return 1e-2; case -1: return 1e-1; case 0: return 1e0; case 1: return 1e1; case 2: return 1e2; case 3: return 1e3; case 4: return 1e4; case 5: return 1e5; \
	case 6: return 1e6; case 7: return 1e7; case 8: return 1e8; case 9: return 1e9; case 10: return 1e10; case 11: return 1e11; case 12: return 1e12; case 13: return 1e13; \
	case 14: return 1e14; case 15: return 1e15; case 16: return 1e16; case 17: return 1e17; case 18: return 1e18; case 19: return 1e19; case 20: return 1e20; case 21: return 1e21; \
	case 22: return 1e22; case 23: return 1e23; case 24: return 1e24; case 25: return 1e25; case 26: return 1e26;
#define V_POWL_CORE \
	case -26: return 1e-26L; case -25: return 1e-25L; case -24: return 1e-24L; case -23: return 1e-23L; case -22: return 1e-22L; case -21: return 1e-21L; case -20: return 1e-20L; case -19: return 1e-19L; \
	case -18: return 1e-18L; case -17: return 1e-17L; case -16: return 1e-16L; case -15: return 1e-15L; case -14: return 1e-14L; case -13: return 1e-13L; case -12: return 1e-12L; case -11: return 1e-11L; \
	case -10: return 1e-10L; case -9: return 1e-9L; case -8: return 1e-8L; case -7: return 1e-7L; case -6: return 1e-6L; case -5: return 1e-5L; case -4: return 1e-4L; case -3: return 1e-3L; \
	case -2: return 1e-2L; case -1: return 1e-1L; case 0: return 1e0L; case 1: return 1e1L; case 2: return 1e2L; case 3: return 1e3L; case 4: return 1e4L; case 5: return 1e5L; \
	case 6: return 1e6L; case 7: return 1e7L; case 8: return 1e8L; case 9: return 1e9L; case 10: return 1e10L; case 11: return 1e11L; case 12: return 1e12L; case 13: return 1e13L; \
	case 14: return 1e14L; case 15: return 1e15L; case 16: return 1e16L; case 17: return 1e17L; case 18: return 1e18L; case 19: return 1e19L; case 20: return 1e20L; case 21: return 1e21L; \
	case 22: return 1e22L; case 23: return 1e23L; case 24: return 1e24L; case 25: return 1e25L; case 26: return 1e26L;
#define V_POWF_REST \
	case -45: return 1e-45f; case -44: return 1e-44f; case -43: return 1e-43f; case -42: return 1e-42f; case -41: return 1e-41f; case -40: return 1e-40f; case -39: return 1e-39f; case -38: return 1e-38f; \
	case -37: return 1e-37f; case -36: return 1e-36f; case -35: return 1e-35f; case -34: return 1e-34f; case -33: return 1e-33f; case -32: return 1e-32f; case -31: return 1e-31f; case -30: return 1e-30f; \
	case -29: return 1e-29f; case -28: return 1e-28f; case -27: return 1e-27f;
#define V_POWF_REST2 \
	case 27: return 1e27f; case 28: return 1e28f; case 29: return 1e29f; case 30: return 1e30f; case 31: return 1e31f; case 32: return 1e32f; case 33: return 1e33f; case 34: return 1e34f; \
	case 35: return 1e35f; case 36: return 1e36f; case 37: return 1e37f; case 38: return 1e38f;
#define V_POW_REST \
	case -323: return 1e-323; case -322: return 1e-322; case -321: return 1e-321; case -320: return 1e-320; case -319: return 1e-319; case -318: return 1e-318; case -317: return 1e-317; case -316: return 1e-316; \
	case -315: return 1e-315; case -314: return 1e-314; case -313: return 1e-313; case -312: return 1e-312; case -311: return 1e-311; case -310: return 1e-310; case -309: return 1e-309; case -308: return 1e-308; \
	case -307: return 1e-307; case -306: return 1e-306; case -305: return 1e-305; case -304: return 1e-304; case -303: return 1e-303; case -302: return 1e-302; case -301: return 1e-301; case -300: return 1e-300;
#define V_POW_REST2 \
	case 290: return 1e290; case 291: return 1e291; case 292: return 1e292; case 293: return 1e293; case 294: return 1e294; case 295: return 1e295; case 296: return 1e296; case 297: return 1e297; \
	case 298: return 1e298; case 299: return 1e299; case 300: return 1e300; case 301: return 1e301; case 302: return 1e302; case 303: return 1e303; case 304: return 1e304; case 305: return 1e305; \
	case 306: return 1e306; case 307: return 1e307; case 308: return 1e308;
#define V_POWL_REST \
	case -4940: return 1e-4940L; case -4939: return 1e-4939L; case -4938: return 1e-4938L; case -4937: return 1e-4937L; case -4936: return 1e-4936L; case -4935: return 1e-4935L; case -4934: return 1e-4934L; case -4933: return 1e-4933L; \
	case -4932: return 1e-4932L; case -4931: return 1e-4931L; case -4930: return 1e-4930L; case -4929: return 1e-4929L; case -4928: return 1e-4928L; case -4927: return 1e-4927L; case -4926: return 1e-4926L; case -4925: return 1e-4925L;
#define V_POWL_REST2 \
	case 4920: return 1e4920L; case 4921: return 1e4921L; case 4922: return 1e4922L; case 4923: return 1e4923L; case 4924: return 1e4924L; case 4925: return 1e4925L; case 4926: return 1e4926L; case 4927: return 1e4927L; \
	case 4928: return 1e4928L; case 4929: return 1e4929L; case 4930: return 1e4930L; case 4931: return 1e4931L; case 4932: return 1e4932L;
