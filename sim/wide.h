// Structures of 1 to 50 members (generated): A of mixed types, B of two byte scalars, P protobuf messages.
#pragma once
#include "world_own.h"

namespace sim
{
struct A1
{
    u32 m1{};
    void fields(auto && f)
    {
        f(m1);
    }
};
struct B1
{
    u16 m1{};
    void fields(auto && f)
    {
        f(m1);
    }
};
struct P1
{
    u32 m1{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1);
    }
    void pbfields(auto && f)
    {
        f(1, m1);
    }
};
struct A2
{
    std::string m1{}; u16 m2{};
    void fields(auto && f)
    {
        f(m1, m2);
    }
};
struct B2
{
    u16 m1{}; std::int16_t m2{};
    void fields(auto && f)
    {
        f(m1, m2);
    }
};
struct P2
{
    zb::vsint64_t m1{}; bool m2{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2);
    }
};
struct A3
{
    u16 m1{}; zb::vint32_t m2{}; u64 m3{};
    A3()
    {
    }
    using serialize = zb::members<3>;
    void fields(auto && f)
    {
        f(m1, m2, m3);
    }
};
struct B3
{
    u16 m1{}; std::int16_t m2{}; E16 m3{};
    void fields(auto && f)
    {
        f(m1, m2, m3);
    }
};
struct P3
{
    bool m1{}; std::string m2{}; float m3{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3);
    }
};
struct A4
{
    u8 m1{}; u32 m2{}; std::string m3{}; u16 m4{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4);
    }
};
struct B4
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4);
    }
};
struct P4
{
    std::string m1{}; float m2{}; zb::vint32_t m3{}; double m4{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4);
    }
};
struct A5
{
    u32 m1{}; std::string m2{}; u16 m3{}; zb::vint32_t m4{}; u64 m5{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5);
    }
};
struct B5
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5);
    }
};
struct P5
{
    zb::vuint32_t m1{}; u32 m2{}; zb::vsint64_t m3{}; bool m4{}; std::string m5{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5);
    }
};
struct A6
{
    std::string m1{}; u16 m2{}; zb::vint32_t m3{}; u64 m4{}; std::vector<u8> m5{}; E16 m6{};
    A6()
    {
    }
    using serialize = zb::members<6>;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6);
    }
};
struct B6
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6);
    }
};
struct P6
{
    u32 m1{}; zb::vsint64_t m2{}; bool m3{}; std::string m4{}; float m5{}; zb::vint32_t m6{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6);
    }
};
struct A7
{
    u16 m1{}; zb::vint32_t m2{}; u64 m3{}; std::vector<u8> m4{}; E16 m5{}; float m6{}; u8 m7{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7);
    }
};
struct B7
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7);
    }
};
struct P7
{
    zb::vsint64_t m1{}; bool m2{}; std::string m3{}; float m4{}; zb::vint32_t m5{}; double m6{}; E32 m7{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7);
    }
};
struct A8
{
    u8 m1{}; u32 m2{}; std::string m3{}; u16 m4{}; zb::vint32_t m5{}; u64 m6{}; std::vector<u8> m7{}; E16 m8{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8);
    }
};
struct B8
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8);
    }
};
struct P8
{
    bool m1{}; std::string m2{}; float m3{}; zb::vint32_t m4{}; double m5{}; E32 m6{}; zb::vuint32_t m7{}; u32 m8{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8);
    }
};
struct A9
{
    u32 m1{}; std::string m2{}; u16 m3{}; zb::vint32_t m4{}; u64 m5{}; std::vector<u8> m6{}; E16 m7{}; float m8{}; u8 m9{};
    A9()
    {
    }
    using serialize = zb::members<9>;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9);
    }
};
struct B9
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9);
    }
};
struct P9
{
    std::string m1{}; float m2{}; zb::vint32_t m3{}; double m4{}; E32 m5{}; zb::vuint32_t m6{}; u32 m7{}; zb::vsint64_t m8{};
    bool m9{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9);
    }
};
struct A10
{
    std::string m1{}; u16 m2{}; zb::vint32_t m3{}; u64 m4{}; std::vector<u8> m5{}; E16 m6{}; float m7{}; u8 m8{}; u32 m9{};
    std::string m10{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10);
    }
};
struct B10
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10);
    }
};
struct P10
{
    zb::vuint32_t m1{}; u32 m2{}; zb::vsint64_t m3{}; bool m4{}; std::string m5{}; float m6{}; zb::vint32_t m7{}; double m8{};
    E32 m9{}; zb::vuint32_t m10{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10);
    }
};
struct A11
{
    u16 m1{}; zb::vint32_t m2{}; u64 m3{}; std::vector<u8> m4{}; E16 m5{}; float m6{}; u8 m7{}; u32 m8{}; std::string m9{};
    u16 m10{}; zb::vint32_t m11{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11);
    }
};
struct B11
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11);
    }
};
struct P11
{
    u32 m1{}; zb::vsint64_t m2{}; bool m3{}; std::string m4{}; float m5{}; zb::vint32_t m6{}; double m7{}; E32 m8{};
    zb::vuint32_t m9{}; u32 m10{}; zb::vsint64_t m11{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
    }
};
struct A12
{
    u8 m1{}; u32 m2{}; std::string m3{}; u16 m4{}; zb::vint32_t m5{}; u64 m6{}; std::vector<u8> m7{}; E16 m8{}; float m9{};
    u8 m10{}; u32 m11{}; std::string m12{};
    A12()
    {
    }
    using serialize = zb::members<12>;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12);
    }
};
struct B12
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12);
    }
};
struct P12
{
    zb::vsint64_t m1{}; bool m2{}; std::string m3{}; float m4{}; zb::vint32_t m5{}; double m6{}; E32 m7{}; zb::vuint32_t m8{};
    u32 m9{}; zb::vsint64_t m10{}; bool m11{}; std::string m12{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12);
    }
};
struct A13
{
    u32 m1{}; std::string m2{}; u16 m3{}; zb::vint32_t m4{}; u64 m5{}; std::vector<u8> m6{}; E16 m7{}; float m8{}; u8 m9{};
    u32 m10{}; std::string m11{}; u16 m12{}; zb::vint32_t m13{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13);
    }
};
struct B13
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13);
    }
};
struct P13
{
    bool m1{}; std::string m2{}; float m3{}; zb::vint32_t m4{}; double m5{}; E32 m6{}; zb::vuint32_t m7{}; u32 m8{};
    zb::vsint64_t m9{}; bool m10{}; std::string m11{}; float m12{}; zb::vint32_t m13{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13);
    }
};
struct A14
{
    std::string m1{}; u16 m2{}; zb::vint32_t m3{}; u64 m4{}; std::vector<u8> m5{}; E16 m6{}; float m7{}; u8 m8{}; u32 m9{};
    std::string m10{}; u16 m11{}; zb::vint32_t m12{}; u64 m13{}; std::vector<u8> m14{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14);
    }
};
struct B14
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14);
    }
};
struct P14
{
    std::string m1{}; float m2{}; zb::vint32_t m3{}; double m4{}; E32 m5{}; zb::vuint32_t m6{}; u32 m7{}; zb::vsint64_t m8{};
    bool m9{}; std::string m10{}; float m11{}; zb::vint32_t m12{}; double m13{}; E32 m14{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14);
    }
};
struct A15
{
    u16 m1{}; zb::vint32_t m2{}; u64 m3{}; std::vector<u8> m4{}; E16 m5{}; float m6{}; u8 m7{}; u32 m8{}; std::string m9{};
    u16 m10{}; zb::vint32_t m11{}; u64 m12{}; std::vector<u8> m13{}; E16 m14{}; float m15{};
    A15()
    {
    }
    using serialize = zb::members<15>;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15);
    }
};
struct B15
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15);
    }
};
struct P15
{
    zb::vuint32_t m1{}; u32 m2{}; zb::vsint64_t m3{}; bool m4{}; std::string m5{}; float m6{}; zb::vint32_t m7{}; double m8{};
    E32 m9{}; zb::vuint32_t m10{}; u32 m11{}; zb::vsint64_t m12{}; bool m13{}; std::string m14{}; float m15{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15);
    }
};
struct A16
{
    u8 m1{}; u32 m2{}; std::string m3{}; u16 m4{}; zb::vint32_t m5{}; u64 m6{}; std::vector<u8> m7{}; E16 m8{}; float m9{};
    u8 m10{}; u32 m11{}; std::string m12{}; u16 m13{}; zb::vint32_t m14{}; u64 m15{}; std::vector<u8> m16{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16);
    }
};
struct B16
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16);
    }
};
struct P16
{
    u32 m1{}; zb::vsint64_t m2{}; bool m3{}; std::string m4{}; float m5{}; zb::vint32_t m6{}; double m7{}; E32 m8{};
    zb::vuint32_t m9{}; u32 m10{}; zb::vsint64_t m11{}; bool m12{}; std::string m13{}; float m14{}; zb::vint32_t m15{};
    double m16{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16);
    }
};
struct A17
{
    u32 m1{}; std::string m2{}; u16 m3{}; zb::vint32_t m4{}; u64 m5{}; std::vector<u8> m6{}; E16 m7{}; float m8{}; u8 m9{};
    u32 m10{}; std::string m11{}; u16 m12{}; zb::vint32_t m13{}; u64 m14{}; std::vector<u8> m15{}; E16 m16{}; float m17{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17);
    }
};
struct B17
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17);
    }
};
struct P17
{
    zb::vsint64_t m1{}; bool m2{}; std::string m3{}; float m4{}; zb::vint32_t m5{}; double m6{}; E32 m7{}; zb::vuint32_t m8{};
    u32 m9{}; zb::vsint64_t m10{}; bool m11{}; std::string m12{}; float m13{}; zb::vint32_t m14{}; double m15{}; E32 m16{};
    zb::vuint32_t m17{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17);
    }
};
struct A18
{
    std::string m1{}; u16 m2{}; zb::vint32_t m3{}; u64 m4{}; std::vector<u8> m5{}; E16 m6{}; float m7{}; u8 m8{}; u32 m9{};
    std::string m10{}; u16 m11{}; zb::vint32_t m12{}; u64 m13{}; std::vector<u8> m14{}; E16 m15{}; float m16{}; u8 m17{};
    u32 m18{};
    A18()
    {
    }
    using serialize = zb::members<18>;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18);
    }
};
struct B18
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18);
    }
};
struct P18
{
    bool m1{}; std::string m2{}; float m3{}; zb::vint32_t m4{}; double m5{}; E32 m6{}; zb::vuint32_t m7{}; u32 m8{};
    zb::vsint64_t m9{}; bool m10{}; std::string m11{}; float m12{}; zb::vint32_t m13{}; double m14{}; E32 m15{};
    zb::vuint32_t m16{}; u32 m17{}; zb::vsint64_t m18{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18);
    }
};
struct A19
{
    u16 m1{}; zb::vint32_t m2{}; u64 m3{}; std::vector<u8> m4{}; E16 m5{}; float m6{}; u8 m7{}; u32 m8{}; std::string m9{};
    u16 m10{}; zb::vint32_t m11{}; u64 m12{}; std::vector<u8> m13{}; E16 m14{}; float m15{}; u8 m16{}; u32 m17{};
    std::string m18{}; u16 m19{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19);
    }
};
struct B19
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19);
    }
};
struct P19
{
    std::string m1{}; float m2{}; zb::vint32_t m3{}; double m4{}; E32 m5{}; zb::vuint32_t m6{}; u32 m7{}; zb::vsint64_t m8{};
    bool m9{}; std::string m10{}; float m11{}; zb::vint32_t m12{}; double m13{}; E32 m14{}; zb::vuint32_t m15{}; u32 m16{};
    zb::vsint64_t m17{}; bool m18{}; std::string m19{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19);
    }
};
struct A20
{
    u8 m1{}; u32 m2{}; std::string m3{}; u16 m4{}; zb::vint32_t m5{}; u64 m6{}; std::vector<u8> m7{}; E16 m8{}; float m9{};
    u8 m10{}; u32 m11{}; std::string m12{}; u16 m13{}; zb::vint32_t m14{}; u64 m15{}; std::vector<u8> m16{}; E16 m17{};
    float m18{}; u8 m19{}; u32 m20{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20);
    }
};
struct B20
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20);
    }
};
struct P20
{
    zb::vuint32_t m1{}; u32 m2{}; zb::vsint64_t m3{}; bool m4{}; std::string m5{}; float m6{}; zb::vint32_t m7{}; double m8{};
    E32 m9{}; zb::vuint32_t m10{}; u32 m11{}; zb::vsint64_t m12{}; bool m13{}; std::string m14{}; float m15{};
    zb::vint32_t m16{}; double m17{}; E32 m18{}; zb::vuint32_t m19{}; u32 m20{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20);
    }
};
struct A21
{
    u32 m1{}; std::string m2{}; u16 m3{}; zb::vint32_t m4{}; u64 m5{}; std::vector<u8> m6{}; E16 m7{}; float m8{}; u8 m9{};
    u32 m10{}; std::string m11{}; u16 m12{}; zb::vint32_t m13{}; u64 m14{}; std::vector<u8> m15{}; E16 m16{}; float m17{};
    u8 m18{}; u32 m19{}; std::string m20{}; u16 m21{};
    A21()
    {
    }
    using serialize = zb::members<21>;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21);
    }
};
struct B21
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21);
    }
};
struct P21
{
    u32 m1{}; zb::vsint64_t m2{}; bool m3{}; std::string m4{}; float m5{}; zb::vint32_t m6{}; double m7{}; E32 m8{};
    zb::vuint32_t m9{}; u32 m10{}; zb::vsint64_t m11{}; bool m12{}; std::string m13{}; float m14{}; zb::vint32_t m15{};
    double m16{}; E32 m17{}; zb::vuint32_t m18{}; u32 m19{}; zb::vsint64_t m20{}; bool m21{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
    }
};
struct A22
{
    std::string m1{}; u16 m2{}; zb::vint32_t m3{}; u64 m4{}; std::vector<u8> m5{}; E16 m6{}; float m7{}; u8 m8{}; u32 m9{};
    std::string m10{}; u16 m11{}; zb::vint32_t m12{}; u64 m13{}; std::vector<u8> m14{}; E16 m15{}; float m16{}; u8 m17{};
    u32 m18{}; std::string m19{}; u16 m20{}; zb::vint32_t m21{}; u64 m22{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22);
    }
};
struct B22
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22);
    }
};
struct P22
{
    zb::vsint64_t m1{}; bool m2{}; std::string m3{}; float m4{}; zb::vint32_t m5{}; double m6{}; E32 m7{}; zb::vuint32_t m8{};
    u32 m9{}; zb::vsint64_t m10{}; bool m11{}; std::string m12{}; float m13{}; zb::vint32_t m14{}; double m15{}; E32 m16{};
    zb::vuint32_t m17{}; u32 m18{}; zb::vsint64_t m19{}; bool m20{}; std::string m21{}; float m22{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22);
    }
};
struct A23
{
    u16 m1{}; zb::vint32_t m2{}; u64 m3{}; std::vector<u8> m4{}; E16 m5{}; float m6{}; u8 m7{}; u32 m8{}; std::string m9{};
    u16 m10{}; zb::vint32_t m11{}; u64 m12{}; std::vector<u8> m13{}; E16 m14{}; float m15{}; u8 m16{}; u32 m17{};
    std::string m18{}; u16 m19{}; zb::vint32_t m20{}; u64 m21{}; std::vector<u8> m22{}; E16 m23{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23);
    }
};
struct B23
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23);
    }
};
struct P23
{
    bool m1{}; std::string m2{}; float m3{}; zb::vint32_t m4{}; double m5{}; E32 m6{}; zb::vuint32_t m7{}; u32 m8{};
    zb::vsint64_t m9{}; bool m10{}; std::string m11{}; float m12{}; zb::vint32_t m13{}; double m14{}; E32 m15{};
    zb::vuint32_t m16{}; u32 m17{}; zb::vsint64_t m18{}; bool m19{}; std::string m20{}; float m21{}; zb::vint32_t m22{};
    double m23{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23);
    }
};
struct A24
{
    u8 m1{}; u32 m2{}; std::string m3{}; u16 m4{}; zb::vint32_t m5{}; u64 m6{}; std::vector<u8> m7{}; E16 m8{}; float m9{};
    u8 m10{}; u32 m11{}; std::string m12{}; u16 m13{}; zb::vint32_t m14{}; u64 m15{}; std::vector<u8> m16{}; E16 m17{};
    float m18{}; u8 m19{}; u32 m20{}; std::string m21{}; u16 m22{}; zb::vint32_t m23{}; u64 m24{};
    A24()
    {
    }
    using serialize = zb::members<24>;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24);
    }
};
struct B24
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24);
    }
};
struct P24
{
    std::string m1{}; float m2{}; zb::vint32_t m3{}; double m4{}; E32 m5{}; zb::vuint32_t m6{}; u32 m7{}; zb::vsint64_t m8{};
    bool m9{}; std::string m10{}; float m11{}; zb::vint32_t m12{}; double m13{}; E32 m14{}; zb::vuint32_t m15{}; u32 m16{};
    zb::vsint64_t m17{}; bool m18{}; std::string m19{}; float m20{}; zb::vint32_t m21{}; double m22{}; E32 m23{};
    zb::vuint32_t m24{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24);
    }
};
struct A25
{
    u32 m1{}; std::string m2{}; u16 m3{}; zb::vint32_t m4{}; u64 m5{}; std::vector<u8> m6{}; E16 m7{}; float m8{}; u8 m9{};
    u32 m10{}; std::string m11{}; u16 m12{}; zb::vint32_t m13{}; u64 m14{}; std::vector<u8> m15{}; E16 m16{}; float m17{};
    u8 m18{}; u32 m19{}; std::string m20{}; u16 m21{}; zb::vint32_t m22{}; u64 m23{}; std::vector<u8> m24{}; E16 m25{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25);
    }
};
struct B25
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25);
    }
};
struct P25
{
    zb::vuint32_t m1{}; u32 m2{}; zb::vsint64_t m3{}; bool m4{}; std::string m5{}; float m6{}; zb::vint32_t m7{}; double m8{};
    E32 m9{}; zb::vuint32_t m10{}; u32 m11{}; zb::vsint64_t m12{}; bool m13{}; std::string m14{}; float m15{};
    zb::vint32_t m16{}; double m17{}; E32 m18{}; zb::vuint32_t m19{}; u32 m20{}; zb::vsint64_t m21{}; bool m22{};
    std::string m23{}; float m24{}; zb::vint32_t m25{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25);
    }
};
struct A26
{
    std::string m1{}; u16 m2{}; zb::vint32_t m3{}; u64 m4{}; std::vector<u8> m5{}; E16 m6{}; float m7{}; u8 m8{}; u32 m9{};
    std::string m10{}; u16 m11{}; zb::vint32_t m12{}; u64 m13{}; std::vector<u8> m14{}; E16 m15{}; float m16{}; u8 m17{};
    u32 m18{}; std::string m19{}; u16 m20{}; zb::vint32_t m21{}; u64 m22{}; std::vector<u8> m23{}; E16 m24{}; float m25{};
    u8 m26{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26);
    }
};
struct B26
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26);
    }
};
struct P26
{
    u32 m1{}; zb::vsint64_t m2{}; bool m3{}; std::string m4{}; float m5{}; zb::vint32_t m6{}; double m7{}; E32 m8{};
    zb::vuint32_t m9{}; u32 m10{}; zb::vsint64_t m11{}; bool m12{}; std::string m13{}; float m14{}; zb::vint32_t m15{};
    double m16{}; E32 m17{}; zb::vuint32_t m18{}; u32 m19{}; zb::vsint64_t m20{}; bool m21{}; std::string m22{}; float m23{};
    zb::vint32_t m24{}; double m25{}; E32 m26{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26);
    }
};
struct A27
{
    u16 m1{}; zb::vint32_t m2{}; u64 m3{}; std::vector<u8> m4{}; E16 m5{}; float m6{}; u8 m7{}; u32 m8{}; std::string m9{};
    u16 m10{}; zb::vint32_t m11{}; u64 m12{}; std::vector<u8> m13{}; E16 m14{}; float m15{}; u8 m16{}; u32 m17{};
    std::string m18{}; u16 m19{}; zb::vint32_t m20{}; u64 m21{}; std::vector<u8> m22{}; E16 m23{}; float m24{}; u8 m25{};
    u32 m26{}; std::string m27{};
    A27()
    {
    }
    using serialize = zb::members<27>;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27);
    }
};
struct B27
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27);
    }
};
struct P27
{
    zb::vsint64_t m1{}; bool m2{}; std::string m3{}; float m4{}; zb::vint32_t m5{}; double m6{}; E32 m7{}; zb::vuint32_t m8{};
    u32 m9{}; zb::vsint64_t m10{}; bool m11{}; std::string m12{}; float m13{}; zb::vint32_t m14{}; double m15{}; E32 m16{};
    zb::vuint32_t m17{}; u32 m18{}; zb::vsint64_t m19{}; bool m20{}; std::string m21{}; float m22{}; zb::vint32_t m23{};
    double m24{}; E32 m25{}; zb::vuint32_t m26{}; u32 m27{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27);
    }
};
struct A28
{
    u8 m1{}; u32 m2{}; std::string m3{}; u16 m4{}; zb::vint32_t m5{}; u64 m6{}; std::vector<u8> m7{}; E16 m8{}; float m9{};
    u8 m10{}; u32 m11{}; std::string m12{}; u16 m13{}; zb::vint32_t m14{}; u64 m15{}; std::vector<u8> m16{}; E16 m17{};
    float m18{}; u8 m19{}; u32 m20{}; std::string m21{}; u16 m22{}; zb::vint32_t m23{}; u64 m24{}; std::vector<u8> m25{};
    E16 m26{}; float m27{}; u8 m28{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28);
    }
};
struct B28
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28);
    }
};
struct P28
{
    bool m1{}; std::string m2{}; float m3{}; zb::vint32_t m4{}; double m5{}; E32 m6{}; zb::vuint32_t m7{}; u32 m8{};
    zb::vsint64_t m9{}; bool m10{}; std::string m11{}; float m12{}; zb::vint32_t m13{}; double m14{}; E32 m15{};
    zb::vuint32_t m16{}; u32 m17{}; zb::vsint64_t m18{}; bool m19{}; std::string m20{}; float m21{}; zb::vint32_t m22{};
    double m23{}; E32 m24{}; zb::vuint32_t m25{}; u32 m26{}; zb::vsint64_t m27{}; bool m28{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28);
    }
};
struct A29
{
    u32 m1{}; std::string m2{}; u16 m3{}; zb::vint32_t m4{}; u64 m5{}; std::vector<u8> m6{}; E16 m7{}; float m8{}; u8 m9{};
    u32 m10{}; std::string m11{}; u16 m12{}; zb::vint32_t m13{}; u64 m14{}; std::vector<u8> m15{}; E16 m16{}; float m17{};
    u8 m18{}; u32 m19{}; std::string m20{}; u16 m21{}; zb::vint32_t m22{}; u64 m23{}; std::vector<u8> m24{}; E16 m25{};
    float m26{}; u8 m27{}; u32 m28{}; std::string m29{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29);
    }
};
struct B29
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29);
    }
};
struct P29
{
    std::string m1{}; float m2{}; zb::vint32_t m3{}; double m4{}; E32 m5{}; zb::vuint32_t m6{}; u32 m7{}; zb::vsint64_t m8{};
    bool m9{}; std::string m10{}; float m11{}; zb::vint32_t m12{}; double m13{}; E32 m14{}; zb::vuint32_t m15{}; u32 m16{};
    zb::vsint64_t m17{}; bool m18{}; std::string m19{}; float m20{}; zb::vint32_t m21{}; double m22{}; E32 m23{};
    zb::vuint32_t m24{}; u32 m25{}; zb::vsint64_t m26{}; bool m27{}; std::string m28{}; float m29{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29);
    }
};
struct A30
{
    std::string m1{}; u16 m2{}; zb::vint32_t m3{}; u64 m4{}; std::vector<u8> m5{}; E16 m6{}; float m7{}; u8 m8{}; u32 m9{};
    std::string m10{}; u16 m11{}; zb::vint32_t m12{}; u64 m13{}; std::vector<u8> m14{}; E16 m15{}; float m16{}; u8 m17{};
    u32 m18{}; std::string m19{}; u16 m20{}; zb::vint32_t m21{}; u64 m22{}; std::vector<u8> m23{}; E16 m24{}; float m25{};
    u8 m26{}; u32 m27{}; std::string m28{}; u16 m29{}; zb::vint32_t m30{};
    A30()
    {
    }
    using serialize = zb::members<30>;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30);
    }
};
struct B30
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30);
    }
};
struct P30
{
    zb::vuint32_t m1{}; u32 m2{}; zb::vsint64_t m3{}; bool m4{}; std::string m5{}; float m6{}; zb::vint32_t m7{}; double m8{};
    E32 m9{}; zb::vuint32_t m10{}; u32 m11{}; zb::vsint64_t m12{}; bool m13{}; std::string m14{}; float m15{};
    zb::vint32_t m16{}; double m17{}; E32 m18{}; zb::vuint32_t m19{}; u32 m20{}; zb::vsint64_t m21{}; bool m22{};
    std::string m23{}; float m24{}; zb::vint32_t m25{}; double m26{}; E32 m27{}; zb::vuint32_t m28{}; u32 m29{};
    zb::vsint64_t m30{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30);
    }
};
struct A31
{
    u16 m1{}; zb::vint32_t m2{}; u64 m3{}; std::vector<u8> m4{}; E16 m5{}; float m6{}; u8 m7{}; u32 m8{}; std::string m9{};
    u16 m10{}; zb::vint32_t m11{}; u64 m12{}; std::vector<u8> m13{}; E16 m14{}; float m15{}; u8 m16{}; u32 m17{};
    std::string m18{}; u16 m19{}; zb::vint32_t m20{}; u64 m21{}; std::vector<u8> m22{}; E16 m23{}; float m24{}; u8 m25{};
    u32 m26{}; std::string m27{}; u16 m28{}; zb::vint32_t m29{}; u64 m30{}; std::vector<u8> m31{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31);
    }
};
struct B31
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31);
    }
};
struct P31
{
    u32 m1{}; zb::vsint64_t m2{}; bool m3{}; std::string m4{}; float m5{}; zb::vint32_t m6{}; double m7{}; E32 m8{};
    zb::vuint32_t m9{}; u32 m10{}; zb::vsint64_t m11{}; bool m12{}; std::string m13{}; float m14{}; zb::vint32_t m15{};
    double m16{}; E32 m17{}; zb::vuint32_t m18{}; u32 m19{}; zb::vsint64_t m20{}; bool m21{}; std::string m22{}; float m23{};
    zb::vint32_t m24{}; double m25{}; E32 m26{}; zb::vuint32_t m27{}; u32 m28{}; zb::vsint64_t m29{}; bool m30{};
    std::string m31{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
    }
};
struct A32
{
    u8 m1{}; u32 m2{}; std::string m3{}; u16 m4{}; zb::vint32_t m5{}; u64 m6{}; std::vector<u8> m7{}; E16 m8{}; float m9{};
    u8 m10{}; u32 m11{}; std::string m12{}; u16 m13{}; zb::vint32_t m14{}; u64 m15{}; std::vector<u8> m16{}; E16 m17{};
    float m18{}; u8 m19{}; u32 m20{}; std::string m21{}; u16 m22{}; zb::vint32_t m23{}; u64 m24{}; std::vector<u8> m25{};
    E16 m26{}; float m27{}; u8 m28{}; u32 m29{}; std::string m30{}; u16 m31{}; zb::vint32_t m32{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32);
    }
};
struct B32
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32);
    }
};
struct P32
{
    zb::vsint64_t m1{}; bool m2{}; std::string m3{}; float m4{}; zb::vint32_t m5{}; double m6{}; E32 m7{}; zb::vuint32_t m8{};
    u32 m9{}; zb::vsint64_t m10{}; bool m11{}; std::string m12{}; float m13{}; zb::vint32_t m14{}; double m15{}; E32 m16{};
    zb::vuint32_t m17{}; u32 m18{}; zb::vsint64_t m19{}; bool m20{}; std::string m21{}; float m22{}; zb::vint32_t m23{};
    double m24{}; E32 m25{}; zb::vuint32_t m26{}; u32 m27{}; zb::vsint64_t m28{}; bool m29{}; std::string m30{}; float m31{};
    zb::vint32_t m32{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32);
    }
};
struct A33
{
    u32 m1{}; std::string m2{}; u16 m3{}; zb::vint32_t m4{}; u64 m5{}; std::vector<u8> m6{}; E16 m7{}; float m8{}; u8 m9{};
    u32 m10{}; std::string m11{}; u16 m12{}; zb::vint32_t m13{}; u64 m14{}; std::vector<u8> m15{}; E16 m16{}; float m17{};
    u8 m18{}; u32 m19{}; std::string m20{}; u16 m21{}; zb::vint32_t m22{}; u64 m23{}; std::vector<u8> m24{}; E16 m25{};
    float m26{}; u8 m27{}; u32 m28{}; std::string m29{}; u16 m30{}; zb::vint32_t m31{}; u64 m32{}; std::vector<u8> m33{};
    A33()
    {
    }
    using serialize = zb::members<33>;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33);
    }
};
struct B33
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33);
    }
};
struct P33
{
    bool m1{}; std::string m2{}; float m3{}; zb::vint32_t m4{}; double m5{}; E32 m6{}; zb::vuint32_t m7{}; u32 m8{};
    zb::vsint64_t m9{}; bool m10{}; std::string m11{}; float m12{}; zb::vint32_t m13{}; double m14{}; E32 m15{};
    zb::vuint32_t m16{}; u32 m17{}; zb::vsint64_t m18{}; bool m19{}; std::string m20{}; float m21{}; zb::vint32_t m22{};
    double m23{}; E32 m24{}; zb::vuint32_t m25{}; u32 m26{}; zb::vsint64_t m27{}; bool m28{}; std::string m29{}; float m30{};
    zb::vint32_t m31{}; double m32{}; E32 m33{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33);
    }
};
struct A34
{
    std::string m1{}; u16 m2{}; zb::vint32_t m3{}; u64 m4{}; std::vector<u8> m5{}; E16 m6{}; float m7{}; u8 m8{}; u32 m9{};
    std::string m10{}; u16 m11{}; zb::vint32_t m12{}; u64 m13{}; std::vector<u8> m14{}; E16 m15{}; float m16{}; u8 m17{};
    u32 m18{}; std::string m19{}; u16 m20{}; zb::vint32_t m21{}; u64 m22{}; std::vector<u8> m23{}; E16 m24{}; float m25{};
    u8 m26{}; u32 m27{}; std::string m28{}; u16 m29{}; zb::vint32_t m30{}; u64 m31{}; std::vector<u8> m32{}; E16 m33{};
    float m34{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34);
    }
};
struct B34
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34);
    }
};
struct P34
{
    std::string m1{}; float m2{}; zb::vint32_t m3{}; double m4{}; E32 m5{}; zb::vuint32_t m6{}; u32 m7{}; zb::vsint64_t m8{};
    bool m9{}; std::string m10{}; float m11{}; zb::vint32_t m12{}; double m13{}; E32 m14{}; zb::vuint32_t m15{}; u32 m16{};
    zb::vsint64_t m17{}; bool m18{}; std::string m19{}; float m20{}; zb::vint32_t m21{}; double m22{}; E32 m23{};
    zb::vuint32_t m24{}; u32 m25{}; zb::vsint64_t m26{}; bool m27{}; std::string m28{}; float m29{}; zb::vint32_t m30{};
    double m31{}; E32 m32{}; zb::vuint32_t m33{}; u32 m34{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34);
    }
};
struct A35
{
    u16 m1{}; zb::vint32_t m2{}; u64 m3{}; std::vector<u8> m4{}; E16 m5{}; float m6{}; u8 m7{}; u32 m8{}; std::string m9{};
    u16 m10{}; zb::vint32_t m11{}; u64 m12{}; std::vector<u8> m13{}; E16 m14{}; float m15{}; u8 m16{}; u32 m17{};
    std::string m18{}; u16 m19{}; zb::vint32_t m20{}; u64 m21{}; std::vector<u8> m22{}; E16 m23{}; float m24{}; u8 m25{};
    u32 m26{}; std::string m27{}; u16 m28{}; zb::vint32_t m29{}; u64 m30{}; std::vector<u8> m31{}; E16 m32{}; float m33{};
    u8 m34{}; u32 m35{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35);
    }
};
struct B35
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{}; std::int16_t m35{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35);
    }
};
struct P35
{
    zb::vuint32_t m1{}; u32 m2{}; zb::vsint64_t m3{}; bool m4{}; std::string m5{}; float m6{}; zb::vint32_t m7{}; double m8{};
    E32 m9{}; zb::vuint32_t m10{}; u32 m11{}; zb::vsint64_t m12{}; bool m13{}; std::string m14{}; float m15{};
    zb::vint32_t m16{}; double m17{}; E32 m18{}; zb::vuint32_t m19{}; u32 m20{}; zb::vsint64_t m21{}; bool m22{};
    std::string m23{}; float m24{}; zb::vint32_t m25{}; double m26{}; E32 m27{}; zb::vuint32_t m28{}; u32 m29{};
    zb::vsint64_t m30{}; bool m31{}; std::string m32{}; float m33{}; zb::vint32_t m34{}; double m35{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34); f(35, m35);
    }
};
struct A36
{
    u8 m1{}; u32 m2{}; std::string m3{}; u16 m4{}; zb::vint32_t m5{}; u64 m6{}; std::vector<u8> m7{}; E16 m8{}; float m9{};
    u8 m10{}; u32 m11{}; std::string m12{}; u16 m13{}; zb::vint32_t m14{}; u64 m15{}; std::vector<u8> m16{}; E16 m17{};
    float m18{}; u8 m19{}; u32 m20{}; std::string m21{}; u16 m22{}; zb::vint32_t m23{}; u64 m24{}; std::vector<u8> m25{};
    E16 m26{}; float m27{}; u8 m28{}; u32 m29{}; std::string m30{}; u16 m31{}; zb::vint32_t m32{}; u64 m33{};
    std::vector<u8> m34{}; E16 m35{}; float m36{};
    A36()
    {
    }
    using serialize = zb::members<36>;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36);
    }
};
struct B36
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{}; std::int16_t m35{}; E16 m36{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36);
    }
};
struct P36
{
    u32 m1{}; zb::vsint64_t m2{}; bool m3{}; std::string m4{}; float m5{}; zb::vint32_t m6{}; double m7{}; E32 m8{};
    zb::vuint32_t m9{}; u32 m10{}; zb::vsint64_t m11{}; bool m12{}; std::string m13{}; float m14{}; zb::vint32_t m15{};
    double m16{}; E32 m17{}; zb::vuint32_t m18{}; u32 m19{}; zb::vsint64_t m20{}; bool m21{}; std::string m22{}; float m23{};
    zb::vint32_t m24{}; double m25{}; E32 m26{}; zb::vuint32_t m27{}; u32 m28{}; zb::vsint64_t m29{}; bool m30{};
    std::string m31{}; float m32{}; zb::vint32_t m33{}; double m34{}; E32 m35{}; zb::vuint32_t m36{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34); f(35, m35); f(36, m36);
    }
};
struct A37
{
    u32 m1{}; std::string m2{}; u16 m3{}; zb::vint32_t m4{}; u64 m5{}; std::vector<u8> m6{}; E16 m7{}; float m8{}; u8 m9{};
    u32 m10{}; std::string m11{}; u16 m12{}; zb::vint32_t m13{}; u64 m14{}; std::vector<u8> m15{}; E16 m16{}; float m17{};
    u8 m18{}; u32 m19{}; std::string m20{}; u16 m21{}; zb::vint32_t m22{}; u64 m23{}; std::vector<u8> m24{}; E16 m25{};
    float m26{}; u8 m27{}; u32 m28{}; std::string m29{}; u16 m30{}; zb::vint32_t m31{}; u64 m32{}; std::vector<u8> m33{};
    E16 m34{}; float m35{}; u8 m36{}; u32 m37{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37);
    }
};
struct B37
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{}; std::int16_t m35{}; E16 m36{}; u16 m37{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37);
    }
};
struct P37
{
    zb::vsint64_t m1{}; bool m2{}; std::string m3{}; float m4{}; zb::vint32_t m5{}; double m6{}; E32 m7{}; zb::vuint32_t m8{};
    u32 m9{}; zb::vsint64_t m10{}; bool m11{}; std::string m12{}; float m13{}; zb::vint32_t m14{}; double m15{}; E32 m16{};
    zb::vuint32_t m17{}; u32 m18{}; zb::vsint64_t m19{}; bool m20{}; std::string m21{}; float m22{}; zb::vint32_t m23{};
    double m24{}; E32 m25{}; zb::vuint32_t m26{}; u32 m27{}; zb::vsint64_t m28{}; bool m29{}; std::string m30{}; float m31{};
    zb::vint32_t m32{}; double m33{}; E32 m34{}; zb::vuint32_t m35{}; u32 m36{}; zb::vsint64_t m37{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34); f(35, m35); f(36, m36); f(37, m37);
    }
};
struct A38
{
    std::string m1{}; u16 m2{}; zb::vint32_t m3{}; u64 m4{}; std::vector<u8> m5{}; E16 m6{}; float m7{}; u8 m8{}; u32 m9{};
    std::string m10{}; u16 m11{}; zb::vint32_t m12{}; u64 m13{}; std::vector<u8> m14{}; E16 m15{}; float m16{}; u8 m17{};
    u32 m18{}; std::string m19{}; u16 m20{}; zb::vint32_t m21{}; u64 m22{}; std::vector<u8> m23{}; E16 m24{}; float m25{};
    u8 m26{}; u32 m27{}; std::string m28{}; u16 m29{}; zb::vint32_t m30{}; u64 m31{}; std::vector<u8> m32{}; E16 m33{};
    float m34{}; u8 m35{}; u32 m36{}; std::string m37{}; u16 m38{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38);
    }
};
struct B38
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{}; std::int16_t m35{}; E16 m36{}; u16 m37{}; std::int16_t m38{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38);
    }
};
struct P38
{
    bool m1{}; std::string m2{}; float m3{}; zb::vint32_t m4{}; double m5{}; E32 m6{}; zb::vuint32_t m7{}; u32 m8{};
    zb::vsint64_t m9{}; bool m10{}; std::string m11{}; float m12{}; zb::vint32_t m13{}; double m14{}; E32 m15{};
    zb::vuint32_t m16{}; u32 m17{}; zb::vsint64_t m18{}; bool m19{}; std::string m20{}; float m21{}; zb::vint32_t m22{};
    double m23{}; E32 m24{}; zb::vuint32_t m25{}; u32 m26{}; zb::vsint64_t m27{}; bool m28{}; std::string m29{}; float m30{};
    zb::vint32_t m31{}; double m32{}; E32 m33{}; zb::vuint32_t m34{}; u32 m35{}; zb::vsint64_t m36{}; bool m37{};
    std::string m38{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34); f(35, m35); f(36, m36); f(37, m37); f(38, m38);
    }
};
struct A39
{
    u16 m1{}; zb::vint32_t m2{}; u64 m3{}; std::vector<u8> m4{}; E16 m5{}; float m6{}; u8 m7{}; u32 m8{}; std::string m9{};
    u16 m10{}; zb::vint32_t m11{}; u64 m12{}; std::vector<u8> m13{}; E16 m14{}; float m15{}; u8 m16{}; u32 m17{};
    std::string m18{}; u16 m19{}; zb::vint32_t m20{}; u64 m21{}; std::vector<u8> m22{}; E16 m23{}; float m24{}; u8 m25{};
    u32 m26{}; std::string m27{}; u16 m28{}; zb::vint32_t m29{}; u64 m30{}; std::vector<u8> m31{}; E16 m32{}; float m33{};
    u8 m34{}; u32 m35{}; std::string m36{}; u16 m37{}; zb::vint32_t m38{}; u64 m39{};
    A39()
    {
    }
    using serialize = zb::members<39>;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39);
    }
};
struct B39
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{}; std::int16_t m35{}; E16 m36{}; u16 m37{}; std::int16_t m38{}; E16 m39{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39);
    }
};
struct P39
{
    std::string m1{}; float m2{}; zb::vint32_t m3{}; double m4{}; E32 m5{}; zb::vuint32_t m6{}; u32 m7{}; zb::vsint64_t m8{};
    bool m9{}; std::string m10{}; float m11{}; zb::vint32_t m12{}; double m13{}; E32 m14{}; zb::vuint32_t m15{}; u32 m16{};
    zb::vsint64_t m17{}; bool m18{}; std::string m19{}; float m20{}; zb::vint32_t m21{}; double m22{}; E32 m23{};
    zb::vuint32_t m24{}; u32 m25{}; zb::vsint64_t m26{}; bool m27{}; std::string m28{}; float m29{}; zb::vint32_t m30{};
    double m31{}; E32 m32{}; zb::vuint32_t m33{}; u32 m34{}; zb::vsint64_t m35{}; bool m36{}; std::string m37{}; float m38{};
    zb::vint32_t m39{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34); f(35, m35); f(36, m36); f(37, m37); f(38, m38); f(39, m39);
    }
};
struct A40
{
    u8 m1{}; u32 m2{}; std::string m3{}; u16 m4{}; zb::vint32_t m5{}; u64 m6{}; std::vector<u8> m7{}; E16 m8{}; float m9{};
    u8 m10{}; u32 m11{}; std::string m12{}; u16 m13{}; zb::vint32_t m14{}; u64 m15{}; std::vector<u8> m16{}; E16 m17{};
    float m18{}; u8 m19{}; u32 m20{}; std::string m21{}; u16 m22{}; zb::vint32_t m23{}; u64 m24{}; std::vector<u8> m25{};
    E16 m26{}; float m27{}; u8 m28{}; u32 m29{}; std::string m30{}; u16 m31{}; zb::vint32_t m32{}; u64 m33{};
    std::vector<u8> m34{}; E16 m35{}; float m36{}; u8 m37{}; u32 m38{}; std::string m39{}; u16 m40{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40);
    }
};
struct B40
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{}; std::int16_t m35{}; E16 m36{}; u16 m37{}; std::int16_t m38{}; E16 m39{}; u16 m40{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40);
    }
};
struct P40
{
    zb::vuint32_t m1{}; u32 m2{}; zb::vsint64_t m3{}; bool m4{}; std::string m5{}; float m6{}; zb::vint32_t m7{}; double m8{};
    E32 m9{}; zb::vuint32_t m10{}; u32 m11{}; zb::vsint64_t m12{}; bool m13{}; std::string m14{}; float m15{};
    zb::vint32_t m16{}; double m17{}; E32 m18{}; zb::vuint32_t m19{}; u32 m20{}; zb::vsint64_t m21{}; bool m22{};
    std::string m23{}; float m24{}; zb::vint32_t m25{}; double m26{}; E32 m27{}; zb::vuint32_t m28{}; u32 m29{};
    zb::vsint64_t m30{}; bool m31{}; std::string m32{}; float m33{}; zb::vint32_t m34{}; double m35{}; E32 m36{};
    zb::vuint32_t m37{}; u32 m38{}; zb::vsint64_t m39{}; bool m40{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34); f(35, m35); f(36, m36); f(37, m37); f(38, m38); f(39, m39); f(40, m40);
    }
};
struct A41
{
    u32 m1{}; std::string m2{}; u16 m3{}; zb::vint32_t m4{}; u64 m5{}; std::vector<u8> m6{}; E16 m7{}; float m8{}; u8 m9{};
    u32 m10{}; std::string m11{}; u16 m12{}; zb::vint32_t m13{}; u64 m14{}; std::vector<u8> m15{}; E16 m16{}; float m17{};
    u8 m18{}; u32 m19{}; std::string m20{}; u16 m21{}; zb::vint32_t m22{}; u64 m23{}; std::vector<u8> m24{}; E16 m25{};
    float m26{}; u8 m27{}; u32 m28{}; std::string m29{}; u16 m30{}; zb::vint32_t m31{}; u64 m32{}; std::vector<u8> m33{};
    E16 m34{}; float m35{}; u8 m36{}; u32 m37{}; std::string m38{}; u16 m39{}; zb::vint32_t m40{}; u64 m41{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41);
    }
};
struct B41
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{}; std::int16_t m35{}; E16 m36{}; u16 m37{}; std::int16_t m38{}; E16 m39{}; u16 m40{}; std::int16_t m41{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41);
    }
};
struct P41
{
    u32 m1{}; zb::vsint64_t m2{}; bool m3{}; std::string m4{}; float m5{}; zb::vint32_t m6{}; double m7{}; E32 m8{};
    zb::vuint32_t m9{}; u32 m10{}; zb::vsint64_t m11{}; bool m12{}; std::string m13{}; float m14{}; zb::vint32_t m15{};
    double m16{}; E32 m17{}; zb::vuint32_t m18{}; u32 m19{}; zb::vsint64_t m20{}; bool m21{}; std::string m22{}; float m23{};
    zb::vint32_t m24{}; double m25{}; E32 m26{}; zb::vuint32_t m27{}; u32 m28{}; zb::vsint64_t m29{}; bool m30{};
    std::string m31{}; float m32{}; zb::vint32_t m33{}; double m34{}; E32 m35{}; zb::vuint32_t m36{}; u32 m37{};
    zb::vsint64_t m38{}; bool m39{}; std::string m40{}; float m41{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34); f(35, m35); f(36, m36); f(37, m37); f(38, m38); f(39, m39); f(40, m40); f(41, m41);
    }
};
struct A42
{
    std::string m1{}; u16 m2{}; zb::vint32_t m3{}; u64 m4{}; std::vector<u8> m5{}; E16 m6{}; float m7{}; u8 m8{}; u32 m9{};
    std::string m10{}; u16 m11{}; zb::vint32_t m12{}; u64 m13{}; std::vector<u8> m14{}; E16 m15{}; float m16{}; u8 m17{};
    u32 m18{}; std::string m19{}; u16 m20{}; zb::vint32_t m21{}; u64 m22{}; std::vector<u8> m23{}; E16 m24{}; float m25{};
    u8 m26{}; u32 m27{}; std::string m28{}; u16 m29{}; zb::vint32_t m30{}; u64 m31{}; std::vector<u8> m32{}; E16 m33{};
    float m34{}; u8 m35{}; u32 m36{}; std::string m37{}; u16 m38{}; zb::vint32_t m39{}; u64 m40{}; std::vector<u8> m41{};
    E16 m42{};
    A42()
    {
    }
    using serialize = zb::members<42>;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42);
    }
};
struct B42
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{}; std::int16_t m35{}; E16 m36{}; u16 m37{}; std::int16_t m38{}; E16 m39{}; u16 m40{}; std::int16_t m41{};
    E16 m42{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42);
    }
};
struct P42
{
    zb::vsint64_t m1{}; bool m2{}; std::string m3{}; float m4{}; zb::vint32_t m5{}; double m6{}; E32 m7{}; zb::vuint32_t m8{};
    u32 m9{}; zb::vsint64_t m10{}; bool m11{}; std::string m12{}; float m13{}; zb::vint32_t m14{}; double m15{}; E32 m16{};
    zb::vuint32_t m17{}; u32 m18{}; zb::vsint64_t m19{}; bool m20{}; std::string m21{}; float m22{}; zb::vint32_t m23{};
    double m24{}; E32 m25{}; zb::vuint32_t m26{}; u32 m27{}; zb::vsint64_t m28{}; bool m29{}; std::string m30{}; float m31{};
    zb::vint32_t m32{}; double m33{}; E32 m34{}; zb::vuint32_t m35{}; u32 m36{}; zb::vsint64_t m37{}; bool m38{};
    std::string m39{}; float m40{}; zb::vint32_t m41{}; double m42{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34); f(35, m35); f(36, m36); f(37, m37); f(38, m38); f(39, m39); f(40, m40); f(41, m41);
        f(42, m42);
    }
};
struct A43
{
    u16 m1{}; zb::vint32_t m2{}; u64 m3{}; std::vector<u8> m4{}; E16 m5{}; float m6{}; u8 m7{}; u32 m8{}; std::string m9{};
    u16 m10{}; zb::vint32_t m11{}; u64 m12{}; std::vector<u8> m13{}; E16 m14{}; float m15{}; u8 m16{}; u32 m17{};
    std::string m18{}; u16 m19{}; zb::vint32_t m20{}; u64 m21{}; std::vector<u8> m22{}; E16 m23{}; float m24{}; u8 m25{};
    u32 m26{}; std::string m27{}; u16 m28{}; zb::vint32_t m29{}; u64 m30{}; std::vector<u8> m31{}; E16 m32{}; float m33{};
    u8 m34{}; u32 m35{}; std::string m36{}; u16 m37{}; zb::vint32_t m38{}; u64 m39{}; std::vector<u8> m40{}; E16 m41{};
    float m42{}; u8 m43{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43);
    }
};
struct B43
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{}; std::int16_t m35{}; E16 m36{}; u16 m37{}; std::int16_t m38{}; E16 m39{}; u16 m40{}; std::int16_t m41{};
    E16 m42{}; u16 m43{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43);
    }
};
struct P43
{
    bool m1{}; std::string m2{}; float m3{}; zb::vint32_t m4{}; double m5{}; E32 m6{}; zb::vuint32_t m7{}; u32 m8{};
    zb::vsint64_t m9{}; bool m10{}; std::string m11{}; float m12{}; zb::vint32_t m13{}; double m14{}; E32 m15{};
    zb::vuint32_t m16{}; u32 m17{}; zb::vsint64_t m18{}; bool m19{}; std::string m20{}; float m21{}; zb::vint32_t m22{};
    double m23{}; E32 m24{}; zb::vuint32_t m25{}; u32 m26{}; zb::vsint64_t m27{}; bool m28{}; std::string m29{}; float m30{};
    zb::vint32_t m31{}; double m32{}; E32 m33{}; zb::vuint32_t m34{}; u32 m35{}; zb::vsint64_t m36{}; bool m37{};
    std::string m38{}; float m39{}; zb::vint32_t m40{}; double m41{}; E32 m42{}; zb::vuint32_t m43{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34); f(35, m35); f(36, m36); f(37, m37); f(38, m38); f(39, m39); f(40, m40); f(41, m41);
        f(42, m42); f(43, m43);
    }
};
struct A44
{
    u8 m1{}; u32 m2{}; std::string m3{}; u16 m4{}; zb::vint32_t m5{}; u64 m6{}; std::vector<u8> m7{}; E16 m8{}; float m9{};
    u8 m10{}; u32 m11{}; std::string m12{}; u16 m13{}; zb::vint32_t m14{}; u64 m15{}; std::vector<u8> m16{}; E16 m17{};
    float m18{}; u8 m19{}; u32 m20{}; std::string m21{}; u16 m22{}; zb::vint32_t m23{}; u64 m24{}; std::vector<u8> m25{};
    E16 m26{}; float m27{}; u8 m28{}; u32 m29{}; std::string m30{}; u16 m31{}; zb::vint32_t m32{}; u64 m33{};
    std::vector<u8> m34{}; E16 m35{}; float m36{}; u8 m37{}; u32 m38{}; std::string m39{}; u16 m40{}; zb::vint32_t m41{};
    u64 m42{}; std::vector<u8> m43{}; E16 m44{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44);
    }
};
struct B44
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{}; std::int16_t m35{}; E16 m36{}; u16 m37{}; std::int16_t m38{}; E16 m39{}; u16 m40{}; std::int16_t m41{};
    E16 m42{}; u16 m43{}; std::int16_t m44{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44);
    }
};
struct P44
{
    std::string m1{}; float m2{}; zb::vint32_t m3{}; double m4{}; E32 m5{}; zb::vuint32_t m6{}; u32 m7{}; zb::vsint64_t m8{};
    bool m9{}; std::string m10{}; float m11{}; zb::vint32_t m12{}; double m13{}; E32 m14{}; zb::vuint32_t m15{}; u32 m16{};
    zb::vsint64_t m17{}; bool m18{}; std::string m19{}; float m20{}; zb::vint32_t m21{}; double m22{}; E32 m23{};
    zb::vuint32_t m24{}; u32 m25{}; zb::vsint64_t m26{}; bool m27{}; std::string m28{}; float m29{}; zb::vint32_t m30{};
    double m31{}; E32 m32{}; zb::vuint32_t m33{}; u32 m34{}; zb::vsint64_t m35{}; bool m36{}; std::string m37{}; float m38{};
    zb::vint32_t m39{}; double m40{}; E32 m41{}; zb::vuint32_t m42{}; u32 m43{}; zb::vsint64_t m44{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34); f(35, m35); f(36, m36); f(37, m37); f(38, m38); f(39, m39); f(40, m40); f(41, m41);
        f(42, m42); f(43, m43); f(44, m44);
    }
};
struct A45
{
    u32 m1{}; std::string m2{}; u16 m3{}; zb::vint32_t m4{}; u64 m5{}; std::vector<u8> m6{}; E16 m7{}; float m8{}; u8 m9{};
    u32 m10{}; std::string m11{}; u16 m12{}; zb::vint32_t m13{}; u64 m14{}; std::vector<u8> m15{}; E16 m16{}; float m17{};
    u8 m18{}; u32 m19{}; std::string m20{}; u16 m21{}; zb::vint32_t m22{}; u64 m23{}; std::vector<u8> m24{}; E16 m25{};
    float m26{}; u8 m27{}; u32 m28{}; std::string m29{}; u16 m30{}; zb::vint32_t m31{}; u64 m32{}; std::vector<u8> m33{};
    E16 m34{}; float m35{}; u8 m36{}; u32 m37{}; std::string m38{}; u16 m39{}; zb::vint32_t m40{}; u64 m41{};
    std::vector<u8> m42{}; E16 m43{}; float m44{}; u8 m45{};
    A45()
    {
    }
    using serialize = zb::members<45>;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45);
    }
};
struct B45
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{}; std::int16_t m35{}; E16 m36{}; u16 m37{}; std::int16_t m38{}; E16 m39{}; u16 m40{}; std::int16_t m41{};
    E16 m42{}; u16 m43{}; std::int16_t m44{}; E16 m45{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45);
    }
};
struct P45
{
    zb::vuint32_t m1{}; u32 m2{}; zb::vsint64_t m3{}; bool m4{}; std::string m5{}; float m6{}; zb::vint32_t m7{}; double m8{};
    E32 m9{}; zb::vuint32_t m10{}; u32 m11{}; zb::vsint64_t m12{}; bool m13{}; std::string m14{}; float m15{};
    zb::vint32_t m16{}; double m17{}; E32 m18{}; zb::vuint32_t m19{}; u32 m20{}; zb::vsint64_t m21{}; bool m22{};
    std::string m23{}; float m24{}; zb::vint32_t m25{}; double m26{}; E32 m27{}; zb::vuint32_t m28{}; u32 m29{};
    zb::vsint64_t m30{}; bool m31{}; std::string m32{}; float m33{}; zb::vint32_t m34{}; double m35{}; E32 m36{};
    zb::vuint32_t m37{}; u32 m38{}; zb::vsint64_t m39{}; bool m40{}; std::string m41{}; float m42{}; zb::vint32_t m43{};
    double m44{}; E32 m45{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34); f(35, m35); f(36, m36); f(37, m37); f(38, m38); f(39, m39); f(40, m40); f(41, m41);
        f(42, m42); f(43, m43); f(44, m44); f(45, m45);
    }
};
struct A46
{
    std::string m1{}; u16 m2{}; zb::vint32_t m3{}; u64 m4{}; std::vector<u8> m5{}; E16 m6{}; float m7{}; u8 m8{}; u32 m9{};
    std::string m10{}; u16 m11{}; zb::vint32_t m12{}; u64 m13{}; std::vector<u8> m14{}; E16 m15{}; float m16{}; u8 m17{};
    u32 m18{}; std::string m19{}; u16 m20{}; zb::vint32_t m21{}; u64 m22{}; std::vector<u8> m23{}; E16 m24{}; float m25{};
    u8 m26{}; u32 m27{}; std::string m28{}; u16 m29{}; zb::vint32_t m30{}; u64 m31{}; std::vector<u8> m32{}; E16 m33{};
    float m34{}; u8 m35{}; u32 m36{}; std::string m37{}; u16 m38{}; zb::vint32_t m39{}; u64 m40{}; std::vector<u8> m41{};
    E16 m42{}; float m43{}; u8 m44{}; u32 m45{}; std::string m46{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46);
    }
};
struct B46
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{}; std::int16_t m35{}; E16 m36{}; u16 m37{}; std::int16_t m38{}; E16 m39{}; u16 m40{}; std::int16_t m41{};
    E16 m42{}; u16 m43{}; std::int16_t m44{}; E16 m45{}; u16 m46{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46);
    }
};
struct P46
{
    u32 m1{}; zb::vsint64_t m2{}; bool m3{}; std::string m4{}; float m5{}; zb::vint32_t m6{}; double m7{}; E32 m8{};
    zb::vuint32_t m9{}; u32 m10{}; zb::vsint64_t m11{}; bool m12{}; std::string m13{}; float m14{}; zb::vint32_t m15{};
    double m16{}; E32 m17{}; zb::vuint32_t m18{}; u32 m19{}; zb::vsint64_t m20{}; bool m21{}; std::string m22{}; float m23{};
    zb::vint32_t m24{}; double m25{}; E32 m26{}; zb::vuint32_t m27{}; u32 m28{}; zb::vsint64_t m29{}; bool m30{};
    std::string m31{}; float m32{}; zb::vint32_t m33{}; double m34{}; E32 m35{}; zb::vuint32_t m36{}; u32 m37{};
    zb::vsint64_t m38{}; bool m39{}; std::string m40{}; float m41{}; zb::vint32_t m42{}; double m43{}; E32 m44{};
    zb::vuint32_t m45{}; u32 m46{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34); f(35, m35); f(36, m36); f(37, m37); f(38, m38); f(39, m39); f(40, m40); f(41, m41);
        f(42, m42); f(43, m43); f(44, m44); f(45, m45); f(46, m46);
    }
};
struct A47
{
    u16 m1{}; zb::vint32_t m2{}; u64 m3{}; std::vector<u8> m4{}; E16 m5{}; float m6{}; u8 m7{}; u32 m8{}; std::string m9{};
    u16 m10{}; zb::vint32_t m11{}; u64 m12{}; std::vector<u8> m13{}; E16 m14{}; float m15{}; u8 m16{}; u32 m17{};
    std::string m18{}; u16 m19{}; zb::vint32_t m20{}; u64 m21{}; std::vector<u8> m22{}; E16 m23{}; float m24{}; u8 m25{};
    u32 m26{}; std::string m27{}; u16 m28{}; zb::vint32_t m29{}; u64 m30{}; std::vector<u8> m31{}; E16 m32{}; float m33{};
    u8 m34{}; u32 m35{}; std::string m36{}; u16 m37{}; zb::vint32_t m38{}; u64 m39{}; std::vector<u8> m40{}; E16 m41{};
    float m42{}; u8 m43{}; u32 m44{}; std::string m45{}; u16 m46{}; zb::vint32_t m47{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47);
    }
};
struct B47
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{}; std::int16_t m35{}; E16 m36{}; u16 m37{}; std::int16_t m38{}; E16 m39{}; u16 m40{}; std::int16_t m41{};
    E16 m42{}; u16 m43{}; std::int16_t m44{}; E16 m45{}; u16 m46{}; std::int16_t m47{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47);
    }
};
struct P47
{
    zb::vsint64_t m1{}; bool m2{}; std::string m3{}; float m4{}; zb::vint32_t m5{}; double m6{}; E32 m7{}; zb::vuint32_t m8{};
    u32 m9{}; zb::vsint64_t m10{}; bool m11{}; std::string m12{}; float m13{}; zb::vint32_t m14{}; double m15{}; E32 m16{};
    zb::vuint32_t m17{}; u32 m18{}; zb::vsint64_t m19{}; bool m20{}; std::string m21{}; float m22{}; zb::vint32_t m23{};
    double m24{}; E32 m25{}; zb::vuint32_t m26{}; u32 m27{}; zb::vsint64_t m28{}; bool m29{}; std::string m30{}; float m31{};
    zb::vint32_t m32{}; double m33{}; E32 m34{}; zb::vuint32_t m35{}; u32 m36{}; zb::vsint64_t m37{}; bool m38{};
    std::string m39{}; float m40{}; zb::vint32_t m41{}; double m42{}; E32 m43{}; zb::vuint32_t m44{}; u32 m45{};
    zb::vsint64_t m46{}; bool m47{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34); f(35, m35); f(36, m36); f(37, m37); f(38, m38); f(39, m39); f(40, m40); f(41, m41);
        f(42, m42); f(43, m43); f(44, m44); f(45, m45); f(46, m46); f(47, m47);
    }
};
struct A48
{
    u8 m1{}; u32 m2{}; std::string m3{}; u16 m4{}; zb::vint32_t m5{}; u64 m6{}; std::vector<u8> m7{}; E16 m8{}; float m9{};
    u8 m10{}; u32 m11{}; std::string m12{}; u16 m13{}; zb::vint32_t m14{}; u64 m15{}; std::vector<u8> m16{}; E16 m17{};
    float m18{}; u8 m19{}; u32 m20{}; std::string m21{}; u16 m22{}; zb::vint32_t m23{}; u64 m24{}; std::vector<u8> m25{};
    E16 m26{}; float m27{}; u8 m28{}; u32 m29{}; std::string m30{}; u16 m31{}; zb::vint32_t m32{}; u64 m33{};
    std::vector<u8> m34{}; E16 m35{}; float m36{}; u8 m37{}; u32 m38{}; std::string m39{}; u16 m40{}; zb::vint32_t m41{};
    u64 m42{}; std::vector<u8> m43{}; E16 m44{}; float m45{}; u8 m46{}; u32 m47{}; std::string m48{};
    A48()
    {
    }
    using serialize = zb::members<48>;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48);
    }
};
struct B48
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{}; std::int16_t m35{}; E16 m36{}; u16 m37{}; std::int16_t m38{}; E16 m39{}; u16 m40{}; std::int16_t m41{};
    E16 m42{}; u16 m43{}; std::int16_t m44{}; E16 m45{}; u16 m46{}; std::int16_t m47{}; E16 m48{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48);
    }
};
struct P48
{
    bool m1{}; std::string m2{}; float m3{}; zb::vint32_t m4{}; double m5{}; E32 m6{}; zb::vuint32_t m7{}; u32 m8{};
    zb::vsint64_t m9{}; bool m10{}; std::string m11{}; float m12{}; zb::vint32_t m13{}; double m14{}; E32 m15{};
    zb::vuint32_t m16{}; u32 m17{}; zb::vsint64_t m18{}; bool m19{}; std::string m20{}; float m21{}; zb::vint32_t m22{};
    double m23{}; E32 m24{}; zb::vuint32_t m25{}; u32 m26{}; zb::vsint64_t m27{}; bool m28{}; std::string m29{}; float m30{};
    zb::vint32_t m31{}; double m32{}; E32 m33{}; zb::vuint32_t m34{}; u32 m35{}; zb::vsint64_t m36{}; bool m37{};
    std::string m38{}; float m39{}; zb::vint32_t m40{}; double m41{}; E32 m42{}; zb::vuint32_t m43{}; u32 m44{};
    zb::vsint64_t m45{}; bool m46{}; std::string m47{}; float m48{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34); f(35, m35); f(36, m36); f(37, m37); f(38, m38); f(39, m39); f(40, m40); f(41, m41);
        f(42, m42); f(43, m43); f(44, m44); f(45, m45); f(46, m46); f(47, m47); f(48, m48);
    }
};
struct A49
{
    u32 m1{}; std::string m2{}; u16 m3{}; zb::vint32_t m4{}; u64 m5{}; std::vector<u8> m6{}; E16 m7{}; float m8{}; u8 m9{};
    u32 m10{}; std::string m11{}; u16 m12{}; zb::vint32_t m13{}; u64 m14{}; std::vector<u8> m15{}; E16 m16{}; float m17{};
    u8 m18{}; u32 m19{}; std::string m20{}; u16 m21{}; zb::vint32_t m22{}; u64 m23{}; std::vector<u8> m24{}; E16 m25{};
    float m26{}; u8 m27{}; u32 m28{}; std::string m29{}; u16 m30{}; zb::vint32_t m31{}; u64 m32{}; std::vector<u8> m33{};
    E16 m34{}; float m35{}; u8 m36{}; u32 m37{}; std::string m38{}; u16 m39{}; zb::vint32_t m40{}; u64 m41{};
    std::vector<u8> m42{}; E16 m43{}; float m44{}; u8 m45{}; u32 m46{}; std::string m47{}; u16 m48{}; zb::vint32_t m49{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48,
          m49);
    }
};
struct B49
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{}; std::int16_t m35{}; E16 m36{}; u16 m37{}; std::int16_t m38{}; E16 m39{}; u16 m40{}; std::int16_t m41{};
    E16 m42{}; u16 m43{}; std::int16_t m44{}; E16 m45{}; u16 m46{}; std::int16_t m47{}; E16 m48{}; u16 m49{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48,
          m49);
    }
};
struct P49
{
    std::string m1{}; float m2{}; zb::vint32_t m3{}; double m4{}; E32 m5{}; zb::vuint32_t m6{}; u32 m7{}; zb::vsint64_t m8{};
    bool m9{}; std::string m10{}; float m11{}; zb::vint32_t m12{}; double m13{}; E32 m14{}; zb::vuint32_t m15{}; u32 m16{};
    zb::vsint64_t m17{}; bool m18{}; std::string m19{}; float m20{}; zb::vint32_t m21{}; double m22{}; E32 m23{};
    zb::vuint32_t m24{}; u32 m25{}; zb::vsint64_t m26{}; bool m27{}; std::string m28{}; float m29{}; zb::vint32_t m30{};
    double m31{}; E32 m32{}; zb::vuint32_t m33{}; u32 m34{}; zb::vsint64_t m35{}; bool m36{}; std::string m37{}; float m38{};
    zb::vint32_t m39{}; double m40{}; E32 m41{}; zb::vuint32_t m42{}; u32 m43{}; zb::vsint64_t m44{}; bool m45{};
    std::string m46{}; float m47{}; zb::vint32_t m48{}; double m49{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48,
          m49);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34); f(35, m35); f(36, m36); f(37, m37); f(38, m38); f(39, m39); f(40, m40); f(41, m41);
        f(42, m42); f(43, m43); f(44, m44); f(45, m45); f(46, m46); f(47, m47); f(48, m48); f(49, m49);
    }
};
struct A50
{
    std::string m1{}; u16 m2{}; zb::vint32_t m3{}; u64 m4{}; std::vector<u8> m5{}; E16 m6{}; float m7{}; u8 m8{}; u32 m9{};
    std::string m10{}; u16 m11{}; zb::vint32_t m12{}; u64 m13{}; std::vector<u8> m14{}; E16 m15{}; float m16{}; u8 m17{};
    u32 m18{}; std::string m19{}; u16 m20{}; zb::vint32_t m21{}; u64 m22{}; std::vector<u8> m23{}; E16 m24{}; float m25{};
    u8 m26{}; u32 m27{}; std::string m28{}; u16 m29{}; zb::vint32_t m30{}; u64 m31{}; std::vector<u8> m32{}; E16 m33{};
    float m34{}; u8 m35{}; u32 m36{}; std::string m37{}; u16 m38{}; zb::vint32_t m39{}; u64 m40{}; std::vector<u8> m41{};
    E16 m42{}; float m43{}; u8 m44{}; u32 m45{}; std::string m46{}; u16 m47{}; zb::vint32_t m48{}; u64 m49{};
    std::vector<u8> m50{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48,
          m49, m50);
    }
};
struct B50
{
    u16 m1{}; std::int16_t m2{}; E16 m3{}; u16 m4{}; std::int16_t m5{}; E16 m6{}; u16 m7{}; std::int16_t m8{}; E16 m9{};
    u16 m10{}; std::int16_t m11{}; E16 m12{}; u16 m13{}; std::int16_t m14{}; E16 m15{}; u16 m16{}; std::int16_t m17{};
    E16 m18{}; u16 m19{}; std::int16_t m20{}; E16 m21{}; u16 m22{}; std::int16_t m23{}; E16 m24{}; u16 m25{};
    std::int16_t m26{}; E16 m27{}; u16 m28{}; std::int16_t m29{}; E16 m30{}; u16 m31{}; std::int16_t m32{}; E16 m33{};
    u16 m34{}; std::int16_t m35{}; E16 m36{}; u16 m37{}; std::int16_t m38{}; E16 m39{}; u16 m40{}; std::int16_t m41{};
    E16 m42{}; u16 m43{}; std::int16_t m44{}; E16 m45{}; u16 m46{}; std::int16_t m47{}; E16 m48{}; u16 m49{};
    std::int16_t m50{};
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48,
          m49, m50);
    }
};
struct P50
{
    zb::vuint32_t m1{}; u32 m2{}; zb::vsint64_t m3{}; bool m4{}; std::string m5{}; float m6{}; zb::vint32_t m7{}; double m8{};
    E32 m9{}; zb::vuint32_t m10{}; u32 m11{}; zb::vsint64_t m12{}; bool m13{}; std::string m14{}; float m15{};
    zb::vint32_t m16{}; double m17{}; E32 m18{}; zb::vuint32_t m19{}; u32 m20{}; zb::vsint64_t m21{}; bool m22{};
    std::string m23{}; float m24{}; zb::vint32_t m25{}; double m26{}; E32 m27{}; zb::vuint32_t m28{}; u32 m29{};
    zb::vsint64_t m30{}; bool m31{}; std::string m32{}; float m33{}; zb::vint32_t m34{}; double m35{}; E32 m36{};
    zb::vuint32_t m37{}; u32 m38{}; zb::vsint64_t m39{}; bool m40{}; std::string m41{}; float m42{}; zb::vint32_t m43{};
    double m44{}; E32 m45{}; zb::vuint32_t m46{}; u32 m47{}; zb::vsint64_t m48{}; bool m49{}; std::string m50{};
    using pb_message = void;
    using serialize = zb::pb_protocol;
    void fields(auto && f)
    {
        f(m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25,
          m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48,
          m49, m50);
    }
    void pbfields(auto && f)
    {
        f(1, m1); f(2, m2); f(3, m3); f(4, m4); f(5, m5); f(6, m6); f(7, m7); f(8, m8); f(9, m9); f(10, m10); f(11, m11);
        f(12, m12); f(13, m13); f(14, m14); f(15, m15); f(16, m16); f(17, m17); f(18, m18); f(19, m19); f(20, m20); f(21, m21);
        f(22, m22); f(23, m23); f(24, m24); f(25, m25); f(26, m26); f(27, m27); f(28, m28); f(29, m29); f(30, m30); f(31, m31);
        f(32, m32); f(33, m33); f(34, m34); f(35, m35); f(36, m36); f(37, m37); f(38, m38); f(39, m39); f(40, m40); f(41, m41);
        f(42, m42); f(43, m43); f(44, m44); f(45, m45); f(46, m46); f(47, m47); f(48, m48); f(49, m49); f(50, m50);
    }
};
} // namespace sim
