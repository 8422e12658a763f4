// std::to_string(double), which is only used in error texts: a fixed short string (laid out as libstdc++'s std::string), in a file of its own because the header defines the same symbol inline.
struct S { char* p; unsigned long n; char b[16]; };
extern "C" void vk_to_xstring(S* r, void*, unsigned long, const char*, ...) __asm__("_ZN9__gnu_cxx12__to_xstringINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEcEET_PFiPT0_mPKS8_P13__va_list_tagEmSB_z");
extern "C" void vk_to_xstring(S* r, void*, unsigned long, const char*, ...) { r->p = r->b; r->n = 3; r->b[0] = '0'; r->b[1] = '.'; r->b[2] = '0'; r->b[3] = 0; }
