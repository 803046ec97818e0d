// Stand-in for the (uninstallable) scripta debug-visualisation logger: every call is a no-op.
#ifndef VERIF_SHIM_SCRIPTA
#define VERIF_SHIM_SCRIPTA
namespace scripta
{
struct CellVDI
{
    template<typename... A>
    CellVDI(const char*, A&&...)
    {
    }
};
struct PointVDI
{
    template<typename... A>
    PointVDI(const char*, A&&...)
    {
    }
};
template<typename... A>
inline void log(A&&...)
{
}
template<typename... A>
inline void setAll(A&&...)
{
}
} // namespace scripta
#endif
