#pragma once
#include "emu/emu.hpp"
using hipError_t = emu::Error;
using hipMemcpyKind = emu::Kind;
#ifndef EMU_DIM3
#define EMU_DIM3
using dim3 = emu::Dim;
#endif
constexpr hipError_t hipSuccess = emu::Success, hipErrorInvalidValue = emu::ErrorInvalidValue, hipErrorMemoryAllocation = emu::ErrorMemoryAllocation, hipErrorUnknown = emu::ErrorUnknown;
constexpr hipMemcpyKind hipMemcpyHostToHost = emu::HostToHost, hipMemcpyHostToDevice = emu::HostToDevice, hipMemcpyDeviceToHost = emu::DeviceToHost, hipMemcpyDeviceToDevice = emu::DeviceToDevice, hipMemcpyDefault = emu::Default;
template< typename T > inline hipError_t hipMalloc( T ** p, size_t n ) { return emu::deviceAlloc( p, n ); }
template< typename T > inline hipError_t hipMallocManaged( T ** p, size_t n, unsigned f = 1 ) { return emu::managedAlloc( p, n, f ); }
inline hipError_t hipMemcpy( void * d, void const * s, size_t n, hipMemcpyKind k ) { return emu::copy( d, s, n, k ); }
template< typename T > inline hipError_t hipFree( T * p ) { return emu::release( p ); }
inline hipError_t hipDeviceSynchronize() { return emu::synchronize(); }
inline hipError_t hipGetLastError() { return emu::getLastError(); }
inline hipError_t hipPeekAtLastError() { return emu::peekAtLastError(); }
inline char const * hipGetErrorString( hipError_t e ) { return emu::errorString( e ); }
inline char const * hipGetErrorName( hipError_t e ) { return emu::errorString( e ); }
