// P13  read access can never modify a matrix
#include "witness.h"
#include <dlaf/matrix/allocation_types.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/matrix/matrix_mirror.h>
#include <dlaf/matrix/panel.h>
#include <dlaf/matrix/tile.h>
#include <dlaf/matrix/col_major_layout.h>
using namespace dlaf;
using namespace dlaf::matrix;
constexpr auto CPU = Device::CPU;
template <class X> X& lv();   // an lvalue


// -------------------------------------------------------------- how a construct could write
CAN(el_ref_w, (lv<X>()(TileElementIndex{0, 0}) = {}))
CAN(el_ref_r, lv<X>()(TileElementIndex{0, 0}))
CAN(ptr_w, (*lv<X>().ptr() = {}))
CAN(ptr_i_w, (*lv<X>().ptr(TileElementIndex{0, 0}) = {}))
CAN(ptr_r, *lv<X>().ptr())
CAN(rw_l, lv<X>().readwrite(LocalTileIndex{0, 0}))
CAN(rw_g, lv<X>().readwrite(GlobalTileIndex{0, 0}))
CAN(sub_pipe, lv<X>().sub_pipeline())
CAN(sub_pipe_old, lv<X>().subPipeline())
CAN(retiled_pipe, lv<X>().retiled_sub_pipeline(LocalTileSize{1, 1}))
CAN(retiled_pipe_old, lv<X>().retiledSubPipeline(LocalTileSize{1, 1}))
CAN(mv_w, (*lv<X>()() = {}))
CAN(mv_i_w, (*lv<X>()(SizeType(0)) = {}))
CAN(chunk_w, (*lv<X>()() = {}))

// any way a tile-like object can be written through
template <class X> inline constexpr bool writes = el_ref_w<X> || ptr_w<X> || ptr_i_w<X>;
template <class X> inline constexpr bool grants_write = rw_l<X> || rw_g<X> || sub_pipe<X> || sub_pipe_old<X> || retiled_pipe<X> || retiled_pipe_old<X>;
// what a sender delivers, and what is behind the handle it delivers
template <class S> using value_t = std::tuple_element_t<0, typename std::decay_t<S>::stub_values>;
template <class S> using behind_t = std::remove_reference_t<decltype(lv<value_t<S>>().get())>;
template <class X, class Y> inline constexpr bool becomes = std::is_constructible_v<X, Y&&> || std::is_constructible_v<X, Y&> || std::is_convertible_v<Y&&, X> || std::is_assignable_v<X&, Y&&> || std::is_assignable_v<X&, Y&>;

template <class T> using TileR = Tile<const T, CPU>;
template <class T> using TileW = Tile<T, CPU>;
template <class T> using MatR = Matrix<const T, CPU>;
template <class T> using MatW = Matrix<T, CPU>;
using MatrixRefd = matrix::internal::MatrixRef<double, CPU>;
template <class T> using RefR = matrix::internal::MatrixRef<const T, CPU>;
template <class T> using RefW = matrix::internal::MatrixRef<T, CPU>;
template <class T> using MirR = MatrixMirror<const T, CPU, CPU>;
template <class T> using MirW = MatrixMirror<T, CPU, CPU>;
template <class T> using ViewR = memory::MemoryView<const T, CPU>;
template <class T> using ViewW = memory::MemoryView<T, CPU>;

#define EACH(NAME, ABOUT, POS, NEG) \
  template <class T> struct NAME##_c : std::bool_constant<(POS)> {}; \
  template <class T> struct NAME##_f : std::bool_constant<(NEG)> {}; \
  WITNESS(NAME, ABOUT, all_v<NAME##_c>, any_v<NAME##_f>)
#define COMMA ,

// -------------------------------------------------------------- tiles
WITNESS(tile_elements, "include/dlaf/matrix/tile.h Tile<const T>::operator()", (el_ref_w<TileW<float>> && el_ref_w<TileW<double>> && el_ref_w<TileW<std::complex<double>>>), (el_ref_w<TileR<float>> || el_ref_w<TileR<double>> || el_ref_w<TileR<std::complex<float>>> || el_ref_w<TileR<std::complex<double>>>))
WITNESS(tile_elements_const, "include/dlaf/matrix/tile.h Tile<const T>::operator() of a constant tile", (el_ref_w<const TileW<float>> && el_ref_w<const TileW<double>>), (el_ref_w<const TileR<float>> || el_ref_w<const TileR<double>> || el_ref_w<const TileR<std::complex<float>>> || el_ref_w<const TileR<std::complex<double>>>))
WITNESS(tile_ptr, "include/dlaf/matrix/tile.h Tile<const T>::ptr()", (ptr_w<TileW<float>> && ptr_w<TileW<double>>), (ptr_w<TileR<float>> || ptr_w<TileR<double>> || ptr_w<TileR<std::complex<float>>> || ptr_w<const TileR<std::complex<double>>>))
WITNESS(tile_ptr_index, "include/dlaf/matrix/tile.h Tile<const T>::ptr(index)", (ptr_i_w<TileW<float>> && ptr_i_w<TileW<double>>), (ptr_i_w<TileR<float>> || ptr_i_w<TileR<double>> || ptr_i_w<TileR<std::complex<float>>> || ptr_i_w<const TileR<std::complex<double>>>))
WITNESS(tile_becomes, "include/dlaf/matrix/tile.h Tile<T> from Tile<const T>", (becomes<TileR<double>, TileW<double>> && becomes<TileR<float>, TileW<float>>), (becomes<TileW<float>, TileR<float>> || becomes<TileW<double>, TileR<double>> || becomes<TileW<std::complex<float>>, TileR<std::complex<float>>> || becomes<TileW<std::complex<double>>, TileR<std::complex<double>>>))
WITNESS(tile_becomes_const, "include/dlaf/matrix/tile.h Tile<T> from a constant Tile<const T>", (std::is_constructible_v<TileW<double>, TileW<double>&&>), (becomes<TileW<float>, const TileR<float>> || becomes<TileW<double>, const TileR<double>>))
WITNESS(tile_ref, "include/dlaf/matrix/tile.h a reference to Tile<const T> bound as Tile<T>", (std::is_convertible_v<TileW<double>&, const TileR<double>&>), (std::is_convertible_v<TileR<double>&, TileW<double>&> || std::is_convertible_v<const TileR<double>&, const TileW<double>&> || std::is_convertible_v<TileR<float>&, const TileW<float>&>))
CAN(subtile_ref, lv<X>().subTileReference(lv<SubTileSpec>()))
WITNESS(subtile, "include/dlaf/matrix/tile.h Tile<const T>::subTileReference", (subtile_ref<TileW<double>> && writes<decltype(lv<TileW<double>>().subTileReference(lv<SubTileSpec>()))>), (writes<decltype(lv<TileR<double>>().subTileReference(lv<SubTileSpec>()))> || becomes<TileW<double>, decltype(lv<TileR<double>>().subTileReference(lv<SubTileSpec>()))> || writes<decltype(lv<const TileR<float>>().subTileReference(lv<SubTileSpec>()))>))
// one owner of write access
WITNESS(tile_copies, "include/dlaf/matrix/tile.h Tile<T> copy construction / assignment (write access would be duplicated)", (std::is_move_constructible_v<TileW<double>> && std::is_move_assignable_v<TileW<double>>), (std::is_copy_constructible_v<TileW<double>> || std::is_copy_assignable_v<TileW<double>> || std::is_copy_constructible_v<TileR<double>> || std::is_copy_assignable_v<TileR<double>> || std::is_copy_constructible_v<TileW<float>> || std::is_copy_constructible_v<TileR<std::complex<float>>>))

// -------------------------------------------------------------- memory views
WITNESS(view, "include/dlaf/memory/memory_view.h MemoryView<const T>::operator()", (mv_w<ViewW<double>> && mv_i_w<ViewW<float>>), (mv_w<ViewR<float>> || mv_i_w<ViewR<float>> || mv_w<ViewR<double>> || mv_i_w<ViewR<double>> || mv_w<ViewR<std::complex<float>>> || mv_i_w<ViewR<std::complex<double>>>))
WITNESS(view_becomes, "include/dlaf/memory/memory_view.h MemoryView<T> from MemoryView<const T>", (becomes<ViewR<double>, ViewW<double>> && becomes<ViewR<float>, ViewW<float>>), (becomes<ViewW<float>, ViewR<float>> || becomes<ViewW<double>, ViewR<double>> || becomes<ViewW<std::complex<float>>, ViewR<std::complex<float>>> || becomes<ViewW<double>, const ViewR<double>>))
WITNESS(view_part, "include/dlaf/memory/memory_view.h MemoryView<T> as part of a MemoryView<const T>", (std::is_constructible_v<ViewR<double>, const ViewW<double>&, SizeType, SizeType>), (std::is_constructible_v<ViewW<double>, const ViewR<double>&, SizeType, SizeType> || std::is_constructible_v<ViewW<float>, ViewR<float>&, SizeType, SizeType>))
WITNESS(view_pointer, "include/dlaf/memory/memory_view.h MemoryView<T> over constant memory", (std::is_constructible_v<ViewR<double>, const double*, SizeType> && std::is_constructible_v<ViewW<double>, double*, SizeType>), (std::is_constructible_v<ViewW<double>, const double*, SizeType> || std::is_constructible_v<ViewW<float>, const float*, SizeType>))

// -------------------------------------------------------------- matrices
WITNESS(matrix_write, "include/dlaf/matrix/matrix.h Matrix<const T>: readwrite, sub_pipeline, retiled_sub_pipeline", (rw_l<MatW<double>> && rw_g<MatW<float>> && sub_pipe<MatW<double>> && sub_pipe_old<MatW<double>> && retiled_pipe<MatW<float>> && retiled_pipe_old<MatW<double>>), (grants_write<MatR<float>> || grants_write<MatR<double>> || grants_write<MatR<std::complex<float>>> || grants_write<MatR<std::complex<double>>>))
WITNESS(matrix_const_object, "include/dlaf/matrix/matrix.h write access from a constant Matrix<T> object", rw_l<MatW<double>>, (grants_write<const MatW<double>> || grants_write<const MatR<double>>))
WITNESS(matrix_becomes, "include/dlaf/matrix/matrix.h Matrix<T> from Matrix<const T>", (std::is_constructible_v<MatR<double>, MatW<double>&&> && std::is_convertible_v<MatW<double>&, MatR<double>&>), (becomes<MatW<float>, MatR<float>> || becomes<MatW<double>, MatR<double>> || becomes<MatW<std::complex<float>>, MatR<std::complex<float>>> || becomes<MatW<std::complex<double>>, MatR<std::complex<double>>> || std::is_convertible_v<MatR<double>&, MatW<double>&>))
WITNESS(matrix_copies, "include/dlaf/matrix/matrix.h Matrix copy construction / assignment", (std::is_move_constructible_v<MatW<double>> && std::is_move_assignable_v<MatR<double>>), (std::is_copy_constructible_v<MatW<double>> || std::is_copy_assignable_v<MatW<double>> || std::is_copy_constructible_v<MatR<double>> || std::is_copy_assignable_v<MatR<double>> || becomes<MatR<double>, const MatW<double>>))
WITNESS(matrix_pointer, "include/dlaf/matrix/matrix.h Matrix<T> over constant user memory", (std::is_constructible_v<MatW<double>, const ColMajorLayout&, double*> && std::is_constructible_v<MatR<double>, const ColMajorLayout&, const double*>), (std::is_constructible_v<MatW<double>, const ColMajorLayout&, const double*> || std::is_constructible_v<MatW<float>, const ColMajorLayout&, const float*> || std::is_constructible_v<MatW<std::complex<float>>, const ColMajorLayout&, const std::complex<float>*>))
template <class T> using read_l = decltype(lv<MatR<T>>().read(LocalTileIndex{0, 0}));
template <class T> using read_g = decltype(lv<MatW<T>>().read(GlobalTileIndex{0, 0}));
template <class T> using rwr_l = decltype(lv<MatW<T>>().readwrite(LocalTileIndex{0, 0}));
WITNESS(matrix_read, "include/dlaf/matrix/matrix.h Matrix::read: what the handle gives", (el_ref_r<behind_t<read_l<double>>> && ptr_r<behind_t<read_g<double>>> && writes<value_t<rwr_l<double>>>), (writes<behind_t<read_l<float>>> || writes<behind_t<read_l<double>>> || writes<behind_t<read_g<std::complex<float>>>> || writes<behind_t<read_g<std::complex<double>>>> || becomes<TileW<double>, behind_t<read_l<double>>> || becomes<TileW<float>, behind_t<read_g<float>>>))
WITNESS(matrix_read_sender, "include/dlaf/matrix/matrix.h a read sender passed where a readwrite sender is asked", (std::is_convertible_v<rwr_l<double>, ReadWriteTileSender<double, CPU>>), (std::is_convertible_v<value_t<read_l<double>>, TileW<double>> || std::is_convertible_v<value_t<read_l<float>>&, TileW<float>&> || becomes<value_t<rwr_l<double>>, value_t<read_l<double>>>))
template <class T> using spc = decltype(lv<MatW<T>>().sub_pipeline_const());
template <class T> using spc_old = decltype(lv<MatW<T>>().subPipelineConst());
template <class T> using rspc = decltype(lv<MatW<T>>().retiled_sub_pipeline_const(LocalTileSize{1, 1}));
template <class T> using rspc_old = decltype(lv<MatR<T>>().retiledSubPipelineConst(LocalTileSize{1, 1}));
WITNESS(sub_pipelines, "include/dlaf/matrix/matrix.h sub_pipeline_const, retiled_sub_pipeline_const", (grants_write<decltype(lv<MatW<double>>().sub_pipeline())> && grants_write<decltype(lv<MatW<double>>().retiled_sub_pipeline(LocalTileSize{1, 1}))>), (grants_write<spc<double>> || grants_write<spc_old<double>> || grants_write<rspc<double>> || grants_write<rspc_old<double>> || grants_write<spc<float>> || grants_write<rspc<std::complex<float>>> || becomes<MatW<double>, spc<double>> || becomes<MatW<double>, rspc<double>>))

// -------------------------------------------------------------- sub-matrix views
WITNESS(ref_write, "include/dlaf/matrix/matrix_ref.h MatrixRef<const T>: readwrite, retiled_sub_pipeline", (rw_l<RefW<double>> && rw_g<RefW<double>> && retiled_pipe<RefW<double>> && retiled_pipe_old<RefW<double>>), (grants_write<RefR<float>> || grants_write<RefR<double>> || grants_write<RefR<std::complex<float>>> || grants_write<RefR<std::complex<double>>>))
WITNESS(ref_from_const, "include/dlaf/matrix/matrix_ref.h MatrixRef<T> of a Matrix<const T>", (std::is_constructible_v<RefW<double>, MatW<double>&> && std::is_constructible_v<RefR<double>, MatR<double>&> && std::is_constructible_v<RefW<double>, MatW<double>&, const matrix::internal::SubMatrixSpec&>), (std::is_constructible_v<RefW<double>, MatR<double>&> || std::is_constructible_v<RefW<double>, MatR<double>&, const matrix::internal::SubMatrixSpec&> || std::is_constructible_v<RefW<float>, MatR<float>&, const matrix::internal::SubMatrixSpec&> || std::is_constructible_v<RefW<double>, const MatW<double>&>))
WITNESS(ref_becomes, "include/dlaf/matrix/matrix_ref.h MatrixRef<T> from MatrixRef<const T>", (std::is_convertible_v<RefW<double>&, RefR<double>&>), (becomes<RefW<double>, RefR<double>> || becomes<RefW<float>, RefR<float>> || std::is_convertible_v<RefR<double>&, RefW<double>&> || becomes<RefW<double>, const RefR<double>>))
template <class T> using ref_read_l = decltype(lv<RefR<T>>().read(LocalTileIndex{0, 0}));
template <class T> using ref_read_g = decltype(lv<RefW<T>>().read(GlobalTileIndex{0, 0}));
WITNESS(ref_read, "include/dlaf/matrix/matrix_ref.h MatrixRef::read: what the handle gives", (el_ref_r<behind_t<ref_read_l<double>>> && writes<value_t<decltype(lv<RefW<double>>().readwrite(LocalTileIndex{0, 0}))>>), (writes<behind_t<ref_read_l<float>>> || writes<behind_t<ref_read_l<double>>> || writes<behind_t<ref_read_g<std::complex<float>>>> || writes<behind_t<ref_read_g<std::complex<double>>>>))
WITNESS(ref_pipelines, "include/dlaf/matrix/matrix_ref.h MatrixRef::retiled_sub_pipeline_const", (grants_write<decltype(lv<RefW<double>>().retiled_sub_pipeline(LocalTileSize{1, 1}))>), (grants_write<decltype(lv<RefR<double>>().retiled_sub_pipeline_const(LocalTileSize{1, 1}))> || grants_write<decltype(lv<RefW<double>>().retiled_sub_pipeline_const(LocalTileSize{1, 1}))> || grants_write<decltype(lv<RefW<float>>().retiledSubPipelineConst(LocalTileSize{1, 1}))>))

// -------------------------------------------------------------- panels
template <class T, Coord C, StoreTransposed S> using PanR = Panel<C, const T, CPU, S>;
template <class T, Coord C, StoreTransposed S> using PanW = Panel<C, T, CPU, S>;
CAN(pan_read, lv<X>().read(LocalTileIndex{0, 0}))
template <class P> using pan_v = decltype(lv<P>().read(LocalTileIndex{0, 0}));
WITNESS(panel_write, "include/dlaf/matrix/panel.h Panel<const T>::readwrite", (rw_l<PanW<double, Coord::Col, StoreTransposed::No>> && rw_l<PanW<double, Coord::Row, StoreTransposed::Yes>>), (rw_l<PanR<double, Coord::Col, StoreTransposed::No>> || rw_l<PanR<double, Coord::Row, StoreTransposed::No>> || rw_l<PanR<double, Coord::Col, StoreTransposed::Yes>> || rw_l<PanR<float, Coord::Row, StoreTransposed::Yes>>))
WITNESS(panel_read, "include/dlaf/matrix/panel.h Panel::read: what the handle gives", (el_ref_r<behind_t<pan_v<PanW<double, Coord::Col, StoreTransposed::No>>>> && el_ref_r<behind_t<pan_v<PanW<double, Coord::Row, StoreTransposed::Yes>>>>), (writes<behind_t<pan_v<PanR<double, Coord::Col, StoreTransposed::No>>>> || writes<behind_t<pan_v<PanW<double, Coord::Row, StoreTransposed::No>>>> || writes<behind_t<pan_v<PanR<double, Coord::Row, StoreTransposed::Yes>>>> || writes<behind_t<pan_v<PanW<float, Coord::Col, StoreTransposed::Yes>>>>))
WITNESS(panel_becomes, "include/dlaf/matrix/panel.h Panel<T> from Panel<const T>; copies", (std::is_convertible_v<PanW<double, Coord::Col, StoreTransposed::No>&, PanR<double, Coord::Col, StoreTransposed::No>&>), (becomes<PanW<double, Coord::Col, StoreTransposed::No>, PanR<double, Coord::Col, StoreTransposed::No>> || std::is_convertible_v<PanR<double, Coord::Row, StoreTransposed::No>&, PanW<double, Coord::Row, StoreTransposed::No>&> || std::is_copy_constructible_v<PanW<double, Coord::Col, StoreTransposed::No>> || std::is_copy_assignable_v<PanW<double, Coord::Col, StoreTransposed::No>>))

// -------------------------------------------------------------- mirrors
template <class P> using mir_v = std::remove_reference_t<decltype(lv<P>().get())>;
template <class P> using mir_s = std::remove_reference_t<decltype(lv<P>().getSource())>;
WITNESS(mirror_write, "include/dlaf/matrix/matrix_mirror.h MatrixMirror<const T>: get(), getSource()", (grants_write<mir_v<MirW<double>>> && grants_write<mir_s<MirW<double>>>), (grants_write<mir_v<MirR<double>>> || grants_write<mir_s<MirR<double>>> || grants_write<mir_v<MirR<float>>> || grants_write<mir_s<MirR<std::complex<float>>>>))
WITNESS(mirror_from_const, "include/dlaf/matrix/matrix_mirror.h MatrixMirror<T> of a Matrix<const T>", (std::is_constructible_v<MirW<double>, MatW<double>&> && std::is_constructible_v<MirR<double>, MatR<double>&>), (std::is_constructible_v<MirW<double>, MatR<double>&> || std::is_constructible_v<MirW<float>, MatR<float>&> || becomes<MirW<double>, MirR<double>> || std::is_convertible_v<MirR<double>&, MirW<double>&>))
template <class T> using MirDR = MatrixMirror<const T, Device::GPU, CPU>;
template <class T> using MirDW = MatrixMirror<T, Device::GPU, CPU>;
WITNESS(mirror_device, "include/dlaf/matrix/matrix_mirror.h MatrixMirror<const T> of a matrix on another device", (std::is_constructible_v<MirDW<double>, MatW<double>&> && grants_write<mir_v<MirDW<double>>>), (std::is_constructible_v<MirDW<double>, MatR<double>&> || grants_write<mir_v<MirDR<double>>> || grants_write<mir_s<MirDR<double>>> || std::is_convertible_v<MirDR<double>&, MirDW<double>&>))
