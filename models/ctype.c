/* <ctype.h> tables. No system header here: those declare the accessors "const", which would let the compiler drop the table stores. */
typedef int int32_t;
#define low(c) (upp(c) ? (c) + 32 : (c))
static inline int dig(int c) { return c >= '0' && c <= '9'; }
static inline int upp(int c) { return c >= 'A' && c <= 'Z'; }
static inline int lo_(int c) { return c >= 'a' && c <= 'z'; }
static inline int spc(int c) { return c == ' ' || (c >= 9 && c <= 13); }
enum { _ISupper = 1 << 8, _ISlower = 1 << 9, _ISalpha = 1 << 10, _ISdigit = 1 << 11, _ISxdigit = 1 << 12, _ISspace = 1 << 13, _ISprint = 1 << 14, _ISgraph = 1 << 15, _ISblank = 1, _IScntrl = 2, _ISpunct = 4, _ISalnum = 8 };
static int isxdigit(int c) { return dig(c) | (c >= 'a' && c <= 'f') | (c >= 'A' && c <= 'F'); }
static int isprint(int c) { return c >= 32 && c < 127; }
static int isgraph(int c) { return c > 32 && c < 127; }
static int isalnum(int c) { return upp(c) | lo_(c) | dig(c); }
static int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
static int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
static unsigned short ctb[384]; static int32_t ctl[384], ctu[384]; static const unsigned short *ctbp; static const int32_t *ctlp, *ctup;
const unsigned short **__ctype_b_loc(void)
{
    if (!ctbp) {
        for (int c = 0; c < 256; c++) {
            unsigned short m = 0;
            if (upp(c)) m |= _ISupper; if (lo_(c)) m |= _ISlower; if (upp(c) || lo_(c)) m |= _ISalpha; if (dig(c)) m |= _ISdigit; if (isxdigit(c)) m |= _ISxdigit;
            if (spc(c)) m |= _ISspace; if ((isprint)(c)) m |= _ISprint; if ((isgraph)(c)) m |= _ISgraph; if (c == ' ' || c == 9) m |= _ISblank; if ((iscntrl)(c)) m |= _IScntrl; if ((ispunct)(c)) m |= _ISpunct; if ((isalnum)(c)) m |= _ISalnum;
            ctb[128 + c] = m;
        }
        ctbp = ctb + 128;
    }
    return &ctbp;
}
const int32_t **__ctype_tolower_loc(void) { if (!ctlp) { for (int c = -128; c < 256; c++) ctl[128 + c] = low(c); ctlp = ctl + 128; } return &ctlp; }
const int32_t **__ctype_toupper_loc(void) { if (!ctup) { for (int c = -128; c < 256; c++) ctu[128 + c] = lo_(c) ? c - 32 : c; ctup = ctu + 128; } return &ctup; }

