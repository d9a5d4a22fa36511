#pragma once
namespace std { class locale { public: locale() {} static const locale &classic() { static locale l; return l; } }; }
