#pragma once
#include "emu/emu.hpp"
using cudaError_t = emu::Error;
using cudaMemcpyKind = emu::Kind;
#ifndef EMU_DIM3
#define EMU_DIM3
using dim3 = emu::Dim;
#endif
constexpr cudaError_t cudaSuccess = emu::Success, cudaErrorInvalidValue = emu::ErrorInvalidValue, cudaErrorMemoryAllocation = emu::ErrorMemoryAllocation, cudaErrorUnknown = emu::ErrorUnknown;
constexpr cudaMemcpyKind cudaMemcpyHostToHost = emu::HostToHost, cudaMemcpyHostToDevice = emu::HostToDevice, cudaMemcpyDeviceToHost = emu::DeviceToHost, cudaMemcpyDeviceToDevice = emu::DeviceToDevice, cudaMemcpyDefault = emu::Default;
template< typename T > inline cudaError_t cudaMalloc( T ** p, size_t n ) { return emu::deviceAlloc( p, n ); }
template< typename T > inline cudaError_t cudaMallocManaged( T ** p, size_t n, unsigned f = 1 ) { return emu::managedAlloc( p, n, f ); }
inline cudaError_t cudaMemcpy( void * d, void const * s, size_t n, cudaMemcpyKind k ) { return emu::copy( d, s, n, k ); }
template< typename T > inline cudaError_t cudaFree( T * p ) { return emu::release( p ); }
inline cudaError_t cudaDeviceSynchronize() { return emu::synchronize(); }
inline cudaError_t cudaGetLastError() { return emu::getLastError(); }
inline cudaError_t cudaPeekAtLastError() { return emu::peekAtLastError(); }
inline char const * cudaGetErrorString( cudaError_t e ) { return emu::errorString( e ); }
inline char const * cudaGetErrorName( cudaError_t e ) { return emu::errorString( e ); }
