// the binary resource the build links in (the service page)
#pragma once
asm(".section .rodata\n.globl _binary_core_html_resources_servicepage_html_start\n_binary_core_html_resources_servicepage_html_start:\n.incbin \"" LVC_REPO "/core/html/resources/servicepage.html\"\n.globl _binary_core_html_resources_servicepage_html_end\n_binary_core_html_resources_servicepage_html_end:\n.byte 0\n.text\n");
