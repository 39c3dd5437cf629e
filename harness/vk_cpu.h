/* Included in front of every C file of the library in the variants "noaes" and "noclmul":
   a simulated processor.  The assembler reads the macros below instead of the instructions
   of the same name:
   - cpuid reports every feature of leaf 1 except the missing one (and RDRAND as told);
   - the instructions the simulated processor lacks trap;
   - rdrand asks the driver (which can make it fail).                                     */
#if defined(__GNUC__) && defined(__x86_64) && !defined(VK_CPU_INCLUDED)
#define VK_CPU_INCLUDED
#ifdef VK_NOAES
#define VK_CLR "0x02000000"
#define VK_TRAP ".irp vkm, aesenc,aesenclast,aesdec,aesdeclast,aesimc,aeskeygenassist,vaesenc,vaesenclast,vaesdec,vaesdeclast,vaesimc,vaeskeygenassist\n"
#else
#define VK_CLR "0x00000002"
#define VK_TRAP ".irp vkm, pclmulqdq,pclmullqlqdq,pclmulhqlqdq,pclmullqhqdq,pclmulhqhqdq,vpclmulqdq,vpclmullqlqdq,vpclmulhqlqdq,vpclmullqhqdq,vpclmulhqhqdq\n"
#endif
__asm__(
  VK_TRAP
  ".macro \\vkm vkargs:vararg\n"
  "ud2\n"
  ".endm\n"
  ".endr\n"
  ".macro cpuid\n"
  "lea -128(%rsp), %rsp\n"
  "push %rax\n"
  ".byte 0x0f, 0xa2\n"
  "cmpl $1, (%rsp)\n"
  "jne 9871f\n"
  "mov vk_cpu_ecx@GOTPCREL(%rip), %rcx\n"
  "movl (%rcx), %ecx\n"
  "orl $~(" VK_CLR "|0x40000000), %ecx\n"
  "9871: lea 136(%rsp), %rsp\n"
  ".endm\n"
  ".macro rdrand vkdst\n"
  "lea -144(%rsp), %rsp\n"
  "push %rax; push %rcx; push %rdx; push %rsi; push %rdi; push %r8; push %r9; push %r10; push %r11; push %rbp\n"
  "mov %rsp, %rbp\n"
  "and $-16, %rsp\n"
  "call vk_rdrand_step@PLT\n"
  "mov %rbp, %rsp\n"
  "mov vk_rd_val@GOTPCREL(%rip), %rax\n"
  "mov (%rax), %rax\n"
  "mov %rax, 80(%rsp)\n"
  "mov vk_rd_ok@GOTPCREL(%rip), %rax\n"
  "movl (%rax), %eax\n"
  "mov %rax, 88(%rsp)\n"
  "pop %rbp; pop %r11; pop %r10; pop %r9; pop %r8; pop %rdi; pop %rsi; pop %rdx; pop %rcx; pop %rax\n"
  "mov (%rsp), \\vkdst\n"
  "btl $0, 8(%rsp)\n"
  "lea 144(%rsp), %rsp\n"
  ".endm\n");
#endif
